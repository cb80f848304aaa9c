---------------------------- MODULE MetricsTrace ----------------------------
(* Recorded evaluations: sentence statistics, sums, scores, documents read   *)
(* from reference files, and the command line scorer, against Metrics and    *)
(* EditDist.                                                                 *)
EXTENDS MetricJudge, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 32
TInit == l = 0 /\ st = "start"
PickChunk == st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk"
PickCase == st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} : l' = k /\ st' = "case"
TNext == PickChunk \/ PickCase

\* ---- reading references: every line of every file may hold alternatives; an empty line is no
\* reference, and a sentence without any reference has the empty one
RECURSIVE SplitBar(_, _, _)
SplitBar(s, i, cur) == IF i > Len(s) THEN <<cur>>
   ELSE IF s[i] = "|||" THEN <<cur>> \o SplitBar(s, i + 1, <<>>)
   ELSE SplitBar(s, i + 1, Append(cur, s[i]))
RECURSIVE RefsAt(_, _, _)
RefsAt(files, i, f) == IF f > Len(files) THEN <<>>
   ELSE (IF files[f][i] = <<>> THEN <<>> ELSE SplitBar(files[f][i], 1, <<>>)) \o RefsAt(files, i, f + 1)
RefsOf(files, i) == LET r == RefsAt(files, i, 1) IN IF r = <<>> THEN <<<<>>>> ELSE r

SumOk(r, q) ==
   LET m == r.m
       ss == [k \in 1..Len(q.ix) |-> r.st[q.ix[k][1]][q.ix[k][2]]]
       tot == SumOf(ss)
       tol == Len(ss)          \* averaged reference lengths are rounded to thousandths
   IN IF m.t = "ser"
        THEN LET hits == Cardinality({k \in 1..Len(q.ix) :
                    \E j \in 1..Len(r.sents[q.ix[k][1]].r) : r.sents[q.ix[k][1]].r[j] = r.sents[q.ix[k][1]].h[q.ix[k][2]]}) IN
             AbsM(q.sc - (hits * 1000000) \div Len(q.ix)) <= 2
      ELSE /\ Near(q.f, tot, tol)
           /\ ("g" \in DOMAIN q => Near(q.g, tot, tol))
           /\ ("u" \in DOMAIN q => Near(q.u, MinusSeq(tot, ss[1]), tol))
           /\ ("u2" \in DOMAIN q => Near(q.u2, MinusSeq(tot, ss[Len(ss)]), tol))
           /\ ("dec" \in DOMAIN q => q.dec = 1 /\ q.dbl = 1)
           /\ ("zero" \in DOMAIN q => (q.zero = 1) <=> (\A i \in 1..Len(q.f) : q.f[i] = 0))
           /\ ScoreOk(m, q.f, q.sc)
           /\ q.scb = q.sc
           /\ ("cli" \in DOMAIN q => (Expected(m, q.f) = NoScore \/ AbsM(q.cli - q.sc) <= 2 + AbsM(q.sc) \div 100000))

SegOk(r) ==
   /\ Len(r.st) = Len(r.sents)
   /\ \A i \in 1..Len(r.sents) : \A k \in 1..Len(r.sents[i].h) :
        StatsOk(r.m, r.sents[i].r, r.sents[i].h[k], r.sents[i].rc, r.sents[i].hc[k], r.st[i][k])
   /\ \A q \in 1..Len(r.sums) : SumOk(r, r.sums[q])
DocOk(r) ==
   /\ r.n = r.lines
   /\ Len(r.st) = r.lines
   /\ \A i \in 1..r.lines : StatsOk(r.m, RefsOf(r.files, i), r.h[i], <<>>, <<>>, r.st[i])
   /\ ("srcs" \in DOMAIN r => r.srcs = r.wantsrcs)
   /\ ("rc" \in DOMAIN r =>       \* the command line scorer on the first r.nh hypotheses
        IF r.nh > r.lines THEN r.rc = 1
        ELSE /\ r.rc = 0
             /\ LET tot == SumOf([i \in 1..r.nh |-> r.st[i]]) IN
                Expected(r.m, tot) = NoScore \/ AbsM(r.sc - Expected(r.m, tot)) <= Tol(r.m, tot))
EncOk(r) == r.ok = 1 /\ r.vals = r.f
\* a single block moved within a text of distinct words is one edit
MovedOk(r) == \A i \in 1..Len(r.sents) : LET s == r.st[i][1] IN s[1] = 0 /\ s[2] = 0 /\ s[3] = 0 /\ s[4] = 1000

Accepted ==
  st = "case" =>
    LET r == Trace[l] IN
    IF "crash" \in DOMAIN r THEN FALSE
    ELSE CASE r.k = "seg" -> SegOk(r) [] r.k = "doc" -> DocOk(r) [] r.k = "enc" -> EncOk(r) [] r.k = "moved" -> MovedOk(r)
=============================================================================
