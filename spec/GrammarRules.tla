----------------------------- MODULE GrammarRules ----------------------------
(* Which translation rules an aligned corpus supports for an input sentence, *)
(* and with what counts.  Words are positive; in a source side -k is the     *)
(* k-th nonterminal, in patterns (SuffixIndex) a gap is 0.  Sentence         *)
(* positions count from 0; spans are <<first, end>>.                         *)
(* A corpus k has f (source sentences), e (target sentences), a (links).     *)
(* Limits o: span, gap (smallest), sym (symbols of a side), nt, tight.       *)
EXTENDS SuffixIndex
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
None == <<-1, -1>>
LowOf(S) == CHOOSE x \in S : \A y \in S : x <= y
HighOf(S) == CHOOSE x \in S : \A y \in S : x >= y
HullOf(S) == IF S = {} THEN None ELSE <<LowOf(S), HighOf(S) + 1>>
Join(s, t) == IF s = None THEN t ELSE IF t = None THEN s ELSE <<Min2(s[1], t[1]), Max2(s[2], t[2])>>
Width(s) == s[2] - s[1]
\* A: the set of links <<i, j>> of a sentence pair
Proj(A, s) == HullOf({x[2] : x \in {y \in A : y[1] >= s[1] /\ y[1] < s[2]}})
Back(A, t) == HullOf({x[1] : x \in {y \in A : y[2] >= t[1] /\ y[2] < t[2]}})
FAligned(A, i) == \E x \in A : x[1] = i
EAligned(A, j) == \E x \in A : x[2] = j
\* a source span and what it is linked to know only each other
Consistent(A, s, o) == LET t == Proj(A, s) IN t # None /\ Width(t) <= o.span /\ Join(Back(A, t), s) = s
\* ---- the span an occurrence stands for: its own words and, where words linked into its translation lie
\* beside it, nonterminals over them; no further words may become part of the translation
Core(A, s, n, o, spare) ==
  LET t == Proj(A, s) IN
  IF t = None \/ Width(t) > o.span THEN None
  ELSE LET b == Join(Back(A, t), s)
           l == IF b[1] < s[1] THEN Min2(b[1], s[1] - o.gap) ELSE s[1]
           h == IF b[2] > s[2] THEN Max2(b[2], s[2] + o.gap) ELSE s[2]
           new == (IF l < s[1] THEN 1 ELSE 0) + (IF h > s[2] THEN 1 ELSE 0) IN
       IF b = s THEN s
       ELSE IF new > spare \/ l < 0 \/ h > n \/ h - l > o.span \/ Proj(A, <<l, h>>) # t THEN None
       ELSE <<l, h>>
\* the smallest span around s that is consistent; it may only grow to the sides given
RECURSIVE Closure(_, _, _, _, _)
Closure(A, s, left, right, o) ==
  LET t == Proj(A, s)  b == Join(Back(A, t), s) IN
  IF t = None \/ Width(t) > o.span THEN None
  ELSE IF b = s THEN s
  ELSE IF (b[1] < s[1] /\ ~left) \/ (b[2] > s[2] /\ ~right) \/ Width(b) > o.span THEN None
  ELSE Closure(A, b, left, right, o)
\* ---- target sides: the linked words, and (loose) unaligned words beside the phrase and its gaps,
\* given to the phrase or to the gap in every way.  gaps: target spans of the nonterminals in source order
RECURSIVE GrowL(_, _, _, _)
GrowL(A, x, bound, lim) == IF x > bound /\ x > lim /\ ~EAligned(A, x - 1) THEN GrowL(A, x - 1, bound, lim) ELSE x
RECURSIVE GrowR(_, _, _, _)
GrowR(A, x, bound, lim) == IF x < bound /\ x < lim /\ ~EAligned(A, x) THEN GrowR(A, x + 1, bound, lim) ELSE x
\* every result is a sequence of chunks <<begin, end>> with the gap order
Variants(A, t, gaps, m, o) ==
  LET xl == IF o.tight THEN t[1] ELSE GrowL(A, t[1], 0, t[2] - o.span)
      xh == IF o.tight THEN t[2] ELSE GrowR(A, t[2], m, t[1] + o.span)
      ord == SetToSortSeq(DOMAIN gaps, LAMBDA i, j : gaps[i][1] < gaps[j][1])
      G(k) == gaps[ord[k]]
      gl(k) == IF o.tight THEN G(k)[1] ELSE GrowL(A, G(k)[1], xl, xl)
      gr(k) == IF o.tight THEN G(k)[2] ELSE GrowR(A, G(k)[2], xh, xh)
      n == Len(gaps)
      begins(k) == IF k = 0 THEN xl..t[1] ELSE G(k)[2]..gr(k)
      ends(k) == IF k = n THEN t[2]..xh ELSE gl(k + 1)..G(k + 1)[1]
      all == FoldLeft(LAMBDA acc, k : UNION {{Append(v, <<b, e>>) : <<b, e>> \in {x \in begins(k) \X ends(k) : x[1] <= x[2] /\ (k = 0 \/ x[1] >= v[k][2])}} : v \in acc},
                      {<<>>}, [k \in 1..(n + 1) |-> k - 1])
  IN [ord |-> ord, chunks |-> {v \in all : v[n + 1][2] - v[1][1] <= o.span}]
\* ---- what one occurrence yields.  p: pattern, m: starts of its chunks in the sentence
\* a set of <<left x?, right x?, source span, target span, target gaps>>
Yield(A, p, m, n, o) ==
  LET ch == Chunks(p)  k == Len(ch)
      s == <<m[1], m[k] + Len(ch[k])>>
      inner == [i \in 1..(k - 1) |-> <<m[i] + Len(ch[i]), m[i + 1]>>]
      al(i) == FAligned(A, i)
      core == Core(A, s, n, o, o.nt - (k - 1))
  IN IF ~(\E i \in DOMAIN ch : \E j \in 0..(Len(ch[i]) - 1) : al(m[i] + j)) THEN {}
     ELSE IF o.tight /\ \E i \in DOMAIN inner : ~al(inner[i][1]) \/ ~al(inner[i][2] - 1) THEN {}
     ELSE IF core = None THEN {}
     ELSE LET lx == core[1] < s[1]  rx == core[2] > s[2]
              gaps == (IF lx THEN <<<<core[1], s[1]>>>> ELSE <<>>) \o inner \o (IF rx THEN <<<<s[2], core[2]>>>> ELSE <<>>)
              syms == Len(p) + (IF lx THEN 1 ELSE 0) + (IF rx THEN 1 ELSE 0) IN
          IF syms > o.sym \/ (o.tight /\ ((lx /\ ~(al(core[1]) /\ al(s[1] - 1))) \/ (rx /\ ~(al(s[2]) /\ al(core[2] - 1))))) THEN {}
          ELSE IF \E i \in DOMAIN gaps : ~Consistent(A, gaps[i], o) THEN {}
          ELSE LET tg == [i \in DOMAIN gaps |-> Proj(A, gaps[i])]
                   own == o.tight => (lx \/ al(s[1])) /\ (rx \/ al(s[2] - 1))
                   first == IF own THEN {<<lx, rx, core, Proj(A, core), tg>>} ELSE {}
                   Side(el, er) ==
                     LET fits == /\ (el => ~lx) /\ (er => ~rx)
                                 /\ (o.tight => (core[1] - (IF el THEN 1 ELSE 0) >= 0 /\ al(core[1] - (IF el THEN 1 ELSE 0)) /\ al(core[2] + (IF er THEN 1 ELSE 0) - 1)))
                         ls == {x \in 0..(core[1] - o.gap) : ~o.tight \/ al(x)}
                         hs == {x \in (core[2] + o.gap)..n : ~o.tight \/ al(x - 1)}
                         d == (IF el THEN 1 ELSE 0) + (IF er THEN 1 ELSE 0) IN
                     IF ~fits \/ (el /\ ls = {}) \/ (er /\ hs = {}) \/ Len(gaps) + d > o.nt \/ syms + d > o.sym THEN {}
                     ELSE LET z == <<IF el THEN HighOf(ls) ELSE core[1], IF er THEN LowOf(hs) ELSE core[2]>>
                              c == IF Width(z) > o.span THEN None ELSE Closure(A, z, el, er, o) IN
                          IF c = None THEN {}
                          ELSE LET a == <<c[1], core[1]>>  b == <<core[2], c[2]>> IN
                               IF (el /\ ((o.tight /\ ~al(a[1])) \/ ~Consistent(A, a, o))) \/ (er /\ ((o.tight /\ ~al(b[2] - 1)) \/ ~Consistent(A, b, o))) THEN {}
                               ELSE {<<lx \/ el, rx \/ er, c, Proj(A, c), (IF el THEN <<Proj(A, a)>> ELSE <<>>) \o tg \o (IF er THEN <<Proj(A, b)>> ELSE <<>>)>>}
               IN first \cup (IF Len(gaps) >= o.nt \/ syms >= o.sym \/ Width(core) + o.gap > o.span THEN {} ELSE Side(FALSE, TRUE) \cup Side(TRUE, FALSE) \cup Side(TRUE, TRUE))
\* ---- as rules
Number(p) == FoldLeft(LAMBDA a, x : IF x = 0 THEN [s |-> Append(a.s, -(a.n + 1)), n |-> a.n + 1] ELSE [s |-> Append(a.s, x), n |-> a.n], [s |-> <<>>, n |-> 0], p).s
SourceOf(p, lx, rx) == Number((IF lx THEN <<0>> ELSE <<>>) \o p \o (IF rx THEN <<0>> ELSE <<>>))
\* positions of the source words in the rule
SrcIndex(p, m, lx) == LET ch == Chunks(p)
      off == FoldLeft(LAMBDA a, k : Append(a, a[k] + Len(ch[k]) + 1), <<IF lx THEN 1 ELSE 0>>, [k \in DOMAIN ch |-> k]) IN
      {<<m[k] + j, off[k] + j>> : <<k, j>> \in {x \in (DOMAIN ch) \X (0..20) : x[2] < Len(ch[x[1]])}}
\* one target side: symbols and <<sentence position, position in the rule>>
Realise(e, v, ord) == FoldLeft(LAMBDA a, k : LET w == [s |-> a.s \o SubSeq(e, v[k][1] + 1, v[k][2]), ix |-> a.ix \cup {<<j, Len(a.s) + j - v[k][1]>> : j \in v[k][1]..(v[k][2] - 1)}] IN
       IF k < Len(v) THEN [w EXCEPT !.s = Append(@, -ord[k])] ELSE w, [s |-> <<>>, ix |-> {}], [k \in DOMAIN v |-> k])
\* every <<source side, target side, alignment, tag>> an occurrence supports; tag tells apart equal ones
RulesAt(k, p, m, sid, o) ==
  LET A == {k.a[sid + 1][i] : i \in DOMAIN k.a[sid + 1]}  e == k.e[sid + 1]
      start == StartsOf(k.f)[sid + 1]  mm == [i \in DOMAIN m |-> m[i] - start] IN
  UNION {LET vs == Variants(A, y[4], y[5], Len(e), o)
             si == SrcIndex(p, mm, y[1]) IN
         {LET q == Realise(e, v, vs.ord) IN
            <<SourceOf(p, y[1], y[2]), q.s,
              {<<x[2], z[2]>> : <<x, z>> \in {w \in si \X q.ix : <<w[1][1], w[2][1]>> \in A}}, <<m, v>>>> : v \in vs.chunks} : y \in Yield(A, p, mm, Len(k.f[sid + 1]), o)}
\* ---- the patterns of an input sentence: <<first, last, pattern>>; only those that occur matter
ArityOf(p) == Cardinality({i \in DOMAIN p : p[i] = 0})
Grow(w, x, o, d) == IF Len(x[3]) >= o.sym \/ x[2] + 1 > Len(w) \/ x[2] - x[1] >= o.span THEN {}
   ELSE {y \in {<<x[1], x[2] + 1, Append(x[3], w[x[2] + 1])>>} \cup
        (IF Len(x[3]) + 1 >= o.sym \/ ArityOf(x[3]) >= o.nt THEN {} ELSE {<<x[1], i, x[3] \o <<0, w[i]>>>> : i \in (x[2] + 1 + o.gap)..Min2(Len(w), x[1] + o.span)}) :
        Occ(d, y[3], o.span, o.gap) # {}}
RECURSIVE Spread(_, _, _, _, _)
Spread(w, o, d, new, all) == IF new = {} THEN all ELSE LET n == (UNION {Grow(w, x, o, d) : x \in new}) \ all IN Spread(w, o, d, n, all \cup n)
\* states of the enumeration; patterns as wide as span + 1 words of the input are included (see Required)
States(w, o, d) == LET i0 == {<<i, i, <<w[i]>>>> : i \in {j \in DOMAIN w : Places(d, <<w[j]>>) # {}}} IN Spread(w, o, d, i0, i0)
Patterns(S) == {x[3] : x \in S}
Required(S, o) == {x[3] : x \in {y \in S : y[2] - y[1] + 1 <= o.span}}
\* ---- word translation probabilities: links, and unlinked words with 0
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Pairs(k) == UNION {LET A == {k.a[s][i] : i \in DOMAIN k.a[s]}  f == k.f[s]  e == k.e[s] IN
     {<<f[x[1] + 1], e[x[2] + 1], s, x[1], x[2]>> : x \in A}
     \cup {<<f[i + 1], 0, s, i, -1>> : i \in {j \in 0..(Len(f) - 1) : ~FAligned(A, j)}}
     \cup {<<0, e[i + 1], s, -1, i>> : i \in {j \in 0..(Len(e) - 1) : ~EAligned(A, j)}} : s \in DOMAIN k.f}
=============================================================================
