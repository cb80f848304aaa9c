--------------------------- MODULE SparseVecTrace ---------------------------
(* Judges recorded histories of the real vectors.                           *)
EXTENDS SparseVec, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 16
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} : l' = k /\ st' = "case"
MapSeen(m, s) == /\ s.n = Cardinality(DOMAIN m) /\ s.e = (IF DOMAIN m = {} THEN 1 ELSE 0)
                 /\ Len(s.m) = s.n
                 /\ \A i \in 1..Len(s.m) : s.m[i][1] \in DOMAIN m /\ m[s.m[i][1]] = s.m[i][2]
                 /\ \A i \in 1..(Len(s.m) - 1) : s.m[i][1] < s.m[i + 1][1]
Probe(m, g) == \A k \in 0..(Len(g) - 1) : g[k + 1] = <<Val(m, k), Val(m, k), IF Val(m, k) # 0 THEN 1 ELSE 0, IF k \in DOMAIN m THEN 1 ELSE 0>>
Dense(m, d) == /\ Len(d) = (IF DOMAIN m = {} THEN 0 ELSE 1 + CHOOSE k \in DOMAIN m : \A q \in DOMAIN m : q <= k)
               /\ \A i \in 1..Len(d) : d[i] = Val(m, i - 1)
MapGo(S, o, r, u) == LET T == MapStep(S, o) IN
  IF /\ MapAnswer(S, T, o, r.r, u)
     /\ \A i \in 1..3 : MapSeen(T[i], r.s[i])
     /\ "g" \in DOMAIN r => Probe(T[o.x], r.g) /\ Dense(T[o.x], r.d)
  THEN T ELSE <<>>
SeqSeen(m, s) == s.n = Len(m) /\ s.m = m /\ s.q = m /\ s.e = (IF m = <<>> THEN 1 ELSE 0)
                 /\ s.fb = (IF m = <<>> THEN <<>> ELSE <<m[1], m[Len(m)]>>)
SeqGo(S, o, r) == LET T == SeqStep(S, o) IN
  IF SeqAnswer(S, o, r.r) /\ \A i \in 1..3 : SeqSeen(T[i], r.s[i]) THEN T ELSE <<>>
Accepted ==
  st = "case" =>
    LET r == Trace[l] IN
    IF "crash" \in DOMAIN r THEN FALSE
    ELSE /\ Len(r.ops) = Len(r.in)
         /\ IF r.k = "sparse"
            THEN FoldLeft(LAMBDA S, i : IF S = <<>> THEN S ELSE MapGo(S, r.in[i], r.ops[i], IF r.t = "i" THEN 1 ELSE 64), <<Nothing, Nothing, Nothing>>, [i \in 1..Len(r.in) |-> i]) # <<>>
            ELSE FoldLeft(LAMBDA S, i : IF S = <<>> THEN S ELSE SeqGo(S, r.in[i], r.ops[i]), <<<<>>, <<>>, <<>>>>, [i \in 1..Len(r.in) |-> i]) # <<>>
=============================================================================
