--------------------------- MODULE ConstrainTrace ---------------------------
(* Judges recorded decodings with a reference.                              *)
EXTENDS Constrain, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 16
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} : l' = k /\ st' = "case"
\* derivations the constrained forest shows, by node: sets of derivations and their number
\* (an edge without the rule it came from only renames the goal)
ATable(A, T, v) ==
  UNION {LET ed == A.E[A.in[v][x]] IN
    IF "par" \notin DOMAIN ed THEN (IF Len(ed.t) = 1 /\ ed.fs = <<>> THEN T[ed.t[1] + 1] ELSE {Nil})
    ELSE {[c |-> <<ed.par.lhs, ed.par.f, ed.par.e>>, fs |-> Rng(ed.fs), s |-> <<ed.pi, ed.pj>>, t |-> <<ed.i, ed.j>>,
           k |-> [q \in 1..Len(ed.t) |-> \* tails come in target order
                    LET vars == SelectSeq(ed.par.e, IsVar) IN kids[CHOOSE z \in 1..Len(vars) : vars[z] = VarNames[q]]]]
          : kids \in Prods([q \in 1..Len(ed.t) |-> T[ed.t[q] + 1]])}
    : x \in 1..Len(A.in[v])}
ATables(A) == FoldLeft(LAMBDA T, v : Append(T, ATable(A, T, v)), <<>>, [v \in 1..A.n |-> v])
ACount(A) == FoldLeft(LAMBDA T, v : Append(T, FoldLeft(LAMBDA s, x : s + FoldLeft(LAMBDA p, y : p * T[y + 1], 1, A.E[x].t), 0, A.in[v])), <<>>, [v \in 1..A.n |-> v])
HasEps(L) == \E p \in 1..Len(L) : \E a \in Rng(L[p]) : a.w = EPS
Edge1(A) == \A i \in 1..Len(A.E) : "par" \notin DOMAIN A.E[i] \/
              (/\ Len(SelectSeq(A.E[i].par.e, IsVar)) = Len(A.E[i].t)
               /\ A.E[i].e = [q \in 1..Len(A.E[i].e) |-> IF A.E[i].par.f[q][1] = 0 THEN A.E[i].par.f[q][2] ELSE A.E[i].e[q]]
               /\ Len(A.E[i].e) = Len(A.E[i].par.f))
Score(w, d) == FoldSet(LAMBDA x, s : s + x[2] * (IF \E q \in 1..Len(w) : w[q][1] = x[1] THEN w[CHOOSE q \in 1..Len(w) : w[q][1] = x[1]][2] ELSE 0), 0, FeatSum(d))
OneOk(r, x) ==
  LET L == x.L  F == x.F
      want == Constrained(F, L) IN
  IF want = {} THEN x.al = 0
  ELSE /\ x.al = 1
       /\ LET A == x.AF
              got == ATables(A)[A.n] IN
          /\ Edge1(A)
          /\ IF HasEps(L) THEN {<<NoSpans(d), FeatSum(d)>> : d \in got} = {<<NoSpans(d), FeatSum(d)>> : d \in want}
             ELSE /\ got = {NoArcs(d) : d \in want}
                  /\ ACount(A)[A.n] = Cardinality(want)
       /\ CASE x.mode = "none" -> TRUE
            [] x.mode = "map" -> Majority(Rng(x.links[1]), [q \in 1..Cardinality(want) |-> Links(SetToSeq(want)[q], 0, 0)])
            [] x.mode = "kbest" -> \* k lists, of derivations in order of score
                 LET sc == SetToSortSeq({<<Score(r.w, d), d>> : d \in want}, LAMBDA a, b : a[1] > b[1]) IN
                 /\ HasEps(L) \/ Len(x.links) = (IF x.k < Len(sc) THEN x.k ELSE Len(sc)) \* empty words can be read at several places
                 /\ Len(x.links) >= 1
                 /\ \A m \in 1..Len(x.links) : \E q \in 1..Len(sc) : (HasEps(L) \/ sc[q][1] = sc[m][1]) /\ Links(sc[q][2], 0, 0) = Rng(x.links[m])
Accepted ==
  st = "case" =>
    LET r == Trace[l] IN
    IF "crash" \in DOMAIN r THEN FALSE
    ELSE \A k \in 1..Len(r.res) : r.res[k].ok = 0 \/ OneOk(r, r.res[k])
=============================================================================
