------------------------------ MODULE LMTrace ------------------------------
(* Recorded language-model queries, fragments and partial applications      *)
(* against LM.                                                               *)
EXTENDS LM, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 32
TInit == l = 0 /\ st = "start"
PickChunk == st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk"
PickCase == st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} : l' = k /\ st' = "case"
TNext == PickChunk \/ PickCase
Known(r) == {r.F[i].g[1] : i \in {k \in 1..Len(r.F) : Len(r.F[k].g) = 1}} \cup {0}
Canon(r, K, s) == [i \in 1..Len(s) |-> IF s[i] \in K THEN s[i] ELSE 0]
AllEq(s, v) == \A i \in 1..Len(s) : s[i] = v
\* every word of the file has an identity of its own, every other word is the unknown word
IdsOk(r, K) ==
   LET c(i) == IF (i - 1) \in K THEN i - 1 ELSE 0 IN
   /\ \A i, j \in 1..Len(r.ids) : (r.ids[i] = r.ids[j]) <=> (c(i) = c(j))
   /\ \A i \in 1..Len(r.ids) : r.ids[i] >= 0 /\ r.ids[i] < r.bound
   /\ r.bound = Cardinality(K)
   /\ r.ids[1] = 0
\* the vocabulary is enumerated completely (positions of the strings in the word list), in order of identity
EnumOk(r, K) ==
   r.noenum = 1 \/
   (/\ Len(r.enum) = r.bound
    /\ \A i \in 1..Len(r.enum) : r.enum[i][1] = i - 1 /\ r.enum[i][2] >= 0 /\ r.ids[r.enum[i][2] + 1] = r.enum[i][1]
    /\ {r.enum[i][2] : i \in 1..Len(r.enum)} = K)
RestOf(r, M, LO, g) == IF r.rest = "max" THEN MaxRest(M, g)
                       ELSE IF r.rest = "lower" THEN (IF Len(g) = 1 THEN LO[1].T[g].p ELSE ScoreDef(LO[Len(g)], Front(g), g[Len(g)]))
                       ELSE PlainRest(M, g)
StepOk(r, M, LO, h, w, e) ==
   LET hw == Append(h, w)
       hs == StateOf(M, h)
       s == StateOf(M, hw)
       n == LenDef(M, h, w)
       \* the begin-of-sentence state holds its word whatever follows
       ctx == IF Len(h) = 1 /\ h[1] = 1 THEN h ELSE hs
       il == IndependentLeft(M, ctx, w)
       g == Suffix(hw, n)
   IN /\ AllEq(e.p, ScoreDef(M, h, w))
      /\ AllEq(e.n, n)
      /\ AllEq(e.il, IF il THEN 1 ELSE 0)
      /\ (r.rest # "" /\ ~il) => e.rest = RestOf(r, M, LO, g)
      /\ e.st = Newest(s) /\ e.gs = Newest(s) /\ e.fs = Newest(s)
      /\ e.bo = StateBack(M, s) /\ e.gb = e.bo /\ e.fb = e.bo
      /\ e.eq = 1
QueryOk(r, M, LO, K, q) ==
   LET s == Canon(r, K, q.s)  h0 == IF q.bos = 1 THEN <<1>> ELSE <<>> IN
   /\ Len(q.r) = Len(s)
   /\ \A i \in 1..Len(s) : StepOk(r, M, LO, h0 \o SubSeq(s, 1, i - 1), s[i], q.r[i])
FragOk(r, M, LO, K, f) ==
   LET s == Canon(r, K, f.s)  bos == f.bos = 1  L == Left(M, s, bos)  R == BosState(M, s, bos)
       Rst(MM, g) == RestOf(r, MM, LO, g)
   IN IF r.ragged = 1 THEN (bos /\ s # <<>> /\ s[Len(s)] = 2) => f.p = FragScore(M, Rst, s, bos)
      ELSE
      /\ f.p = FragScore(M, Rst, s, bos)
      /\ f.ll = L.len /\ (f.lf = 1) = L.full
      /\ f.rw = Newest(R) /\ f.rb = StateBack(M, R)
      /\ Len(f.ptr) = L.len
\* pointers of the left states: one per n-gram of leading words
PtrOk(r, K) ==
   \A i, j \in 1..Len(r.t) :
      LET a == r.t[i]  b == r.t[j] IN
      \A k \in 1..LMMin(Len(a.ptr), Len(b.ptr)) : (a.ptr[k] = b.ptr[k]) <=> (Canon(r, K, SubSeq(a.s, 1, k)) = Canon(r, K, SubSeq(b.s, 1, k)))
\* sentence totals printed by the query program
TotalsOk(r, M, K) == \A i \in 1..Len(r.tot) :
   LET t == r.tot[i]  s == Canon(r, K, t.s)
       full == IF r.sent = 1 THEN Append(s, 2) ELSE s
   IN /\ t.total = TotalDef(M, IF r.sent = 1 THEN <<1>> ELSE <<>>, full)
      /\ t.oov = Cardinality({k \in 1..Len(s) : s[k] = 0})
      /\ r.words = 1 => /\ Len(t.w) = Len(full)
                        /\ \A k \in 1..Len(full) : LET h == (IF r.sent = 1 THEN <<1>> ELSE <<>>) \o SubSeq(full, 1, k - 1) IN
                              t.w[k] = <<full[k], LenDef(M, h, full[k]), ScoreDef(M, h, full[k])>>
LMOk(r) ==
   LET K == Known(r)
       M == TLCEval(Model(r.N, r.F, r.unk))
       LO == TLCEval([k \in 1..Len(r.lower) |-> Model(k, r.lower[k], r.unk)])
   IN IF r.k = "query" THEN TotalsOk(r, M, K)
      ELSE /\ r.ord = r.N /\ r.recog = 1
           /\ IdsOk(r, K) /\ EnumOk(r, K)
           /\ \A i \in 1..Len(r.q) : QueryOk(r, M, LO, K, r.q[i])
           /\ \A i \in 1..Len(r.t) : FragOk(r, M, LO, K, r.t[i])
           /\ r.ragged = 1 \/ (AllEq(r.same, 1) /\ PtrOk(r, K))
Accepted == st # "case" \/ LET r == Trace[l] IN ("crash" \notin DOMAIN r) /\ LMOk(r)
=============================================================================
