-------------------------- MODULE GrammarRulesTrace --------------------------
(* Recorded grammars.  r: corpus k, limits o, lo (sentences left out), max   *)
(* (samples), g: <<[s: input, r: rules]>>                                    *)
EXTENDS GrammarRules, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
TChunks == 1..((Len(Trace) + 15) \div 16)
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in TChunks : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E i \in ((l - 1) * 16 + 1)..(l * 16) : i <= Len(Trace) /\ l' = i /\ st' = "case"
Strip(s) == LET z == [i \in DOMAIN s |-> IF s[i] < 0 THEN 0 ELSE s[i]]
                b == IF z[1] = 0 THEN 2 ELSE 1  e == IF z[Len(z)] = 0 THEN Len(z) - 1 ELSE Len(z) IN SubSeq(z, b, e)
WordsOf(s) == {i \in DOMAIN s : s[i] > 0}
\* fractions <<n, d>> in lowest terms; the product of the best probability of each word, and how many have none
Less(x, y) == x[1] * y[2] < y[1] * x[2]
Norm(n, d) == LET q == Gcd(n, d) IN <<n \div q, d \div q>>
Best(S) == CHOOSE x \in S : \A y \in S : ~Less(x, y)
\* (products whose denominator passes 200000 are not compared)
LexOf(rows) == FoldLeft(LAMBDA a, b : IF a.d > 200000 THEN a ELSE IF b[1] = 0 THEN [a EXCEPT !.none = @ + 1] ELSE LET q == Norm(a.n * b[1], a.d * b[2]) IN [a EXCEPT !.n = q[1], !.d = q[2]], [none |-> 0, n |-> 1, d |-> 1], rows)
GrammarOk(r, d, sids, count, fcount, ecount, g) ==
  LET o == r.o
      w == g.s
      S == TLCEval(States(w, o, d))
      P == TLCEval(Patterns(S))
      must == TLCEval(Required(S, o))
      lo == {r.lo[i] : i \in DOMAIN r.lo}
      C(f, e) == IF <<f, e>> \in DOMAIN count THEN count[<<f, e>>] ELSE 0
      LexFE(x) == LexOf([i \in 1..Len(SelectSeq(x.s, LAMBDA y : y > 0)) |-> LET f == SelectSeq(x.s, LAMBDA y : y > 0)[i] IN Best({<<C(f, e), IF e \in DOMAIN ecount THEN ecount[e] ELSE 1>> : e \in {x.t[j] : j \in WordsOf(x.t)} \cup {0}})])
      LexEF(x) == LexOf([i \in 1..Len(SelectSeq(x.t, LAMBDA y : y > 0)) |-> LET e == SelectSeq(x.t, LAMBDA y : y > 0)[i] IN Best({<<C(f, e), IF f \in DOMAIN fcount THEN fcount[f] ELSE 1>> : f \in {x.s[j] : j \in WordsOf(x.s)} \cup {0}})])
      OkFor(p) ==
        LET all == TLCEval(Occ(d, p, o.span, o.gap))
            occ == TLCEval({m \in all : sids[m[1] + 1] \notin lo})
            mine == TLCEval({i \in DOMAIN g.r : Strip(g.r[i].s) = p})
            R == TLCEval(UNION {RulesAt(r.k, p, m, sids[m[1] + 1], o) : m \in occ})
            exact == Cardinality(all) <= r.max
        IN IF mine = {} THEN (p \notin must) \/ ~exact \/ R = {}
           ELSE /\ \A i, j \in mine : i # j => <<g.r[i].s, g.r[i].t>> # <<g.r[j].s, g.r[j].t>>
                /\ {<<g.r[i].s, g.r[i].t>> : i \in mine} \subseteq {<<z[1], z[2]>> : z \in R}
                /\ exact => {<<z[1], z[2]>> : z \in R} \subseteq {<<g.r[i].s, g.r[i].t>> : i \in mine}
                /\ \A i \in mine : LET x == g.r[i]
                      Z == {z \in R : z[1] = x.s /\ z[2] = x.t}
                      a == {x.a[q] : q \in DOMAIN x.a}
                      N(b) == Cardinality({z \in Z : z[3] = b})
                      n == Cardinality({z[4][1] : z \in {y \in R : y[1] = x.s}}) IN
                   /\ IF exact THEN x.n = Cardinality(occ) ELSE IF lo = {} THEN x.n = r.max ELSE x.n <= r.max
                   /\ IF exact THEN x.c = Cardinality(Z) ELSE x.c >= 1 /\ x.c <= Cardinality(Z)
                   /\ x.p[1] * x.n = x.p[2] * x.c
                   /\ Cardinality(a) = Len(x.a) /\ N(a) > 0 /\ (exact => \A z \in Z : N(z[3]) <= N(a))
                   /\ exact => x.sf = (IF n = 1 THEN 1 ELSE 0)
                   /\ x.sfe = (IF x.c = 1 THEN 1 ELSE 0)
                   /\ LET y == LexFE(x) IN y.d > 200000 \/ x.fe = <<y.none, y.n, y.d>>
                   /\ LET y == LexEF(x) IN y.d > 200000 \/ x.ef = <<y.none, y.n, y.d>>
  IN /\ \A i \in DOMAIN g.r : Len(g.r[i].s) > 0 /\ Strip(g.r[i].s) \in P
     /\ \A p \in P : OkFor(p)
RecOk(r) ==
  LET k == [f |-> r.f, e |-> r.e, a |-> r.a]
      d == TLCEval(DataOf(r.f))  sids == TLCEval(SentIds(r.f))
      PP == TLCEval(Pairs(k))
      count == TLCEval([x \in {<<y[1], y[2]>> : y \in PP} |-> Cardinality({y \in PP : y[1] = x[1] /\ y[2] = x[2]})])
      fcount == TLCEval([x \in {y[1] : y \in PP} |-> Cardinality({y \in PP : y[1] = x})])
      ecount == TLCEval([x \in {y[2] : y \in PP} |-> Cardinality({y \in PP : y[2] = x})])
      rr == [k |-> k, o |-> r.o, lo |-> r.lo, max |-> r.max]
  IN \A i \in DOMAIN r.g : GrammarOk(rr, d, sids, count, fcount, ecount, r.g[i])
Accepted == st # "case" \/ LET r == Trace[l] IN ("crash" \notin DOMAIN r) /\ RecOk(r)
=============================================================================
