------------------------------ MODULE MertTrace ------------------------------
(* Recorded line searches: envelopes of forests, error surfaces, and the     *)
(* step taken, against Mert and the metric's specification.                   *)
EXTENDS Mert, MetricJudge, TLC, Json, IOUtils
FR == INSTANCE Forest
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 32
TInit == l = 0 /\ st = "start"
PickChunk == st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk"
PickCase == st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} : l' = k /\ st' = "case"
TNext == PickChunk \/ PickCase

NegInf == -1000000000
Micro(p, q) == (p \div q) * 1000000 + ((p % q) * 1000000) \div q     \* breakpoints in millionths
\* ---- the envelope of one sentence
HullOk(F, O, D, H) ==
   LET ders == {[m |-> FR!Dot(d.f, D), b |-> FR!Dot(d.f, O), y |-> d.y] : d \in FR!Derivations(F)}
       lines == {[m |-> d.m, b |-> d.b] : d \in ders}
       U == Upper(lines)
       line(i) == [m |-> H[i].m, b |-> H[i].b]
   IN /\ Len(H) > 0 /\ H[1].x = NegInf
      /\ \A i \in 1..Len(H) : [m |-> H[i].m, b |-> H[i].b, y |-> H[i].y] \in ders
      /\ U \subseteq {line(i) : i \in 1..Len(H)}
      /\ \A i \in 2..Len(H) : H[i].x >= H[i - 1].x
      \* every line becomes best where it starts to be; one that is never alone best spans nothing
      /\ \A i \in 1..Len(H) : line(i) \notin U => (i < Len(H) /\ H[i + 1].x <= H[i].x + 1)
      /\ LET best == SelectSeq(H, LAMBDA h : [m |-> h.m, b |-> h.b] \in U) IN
         \A i \in 2..Len(best) :
            /\ best[i - 1].m < best[i].m
            /\ AbsM(best[i].x - Micro(best[i - 1].b - best[i].b, best[i].m - best[i - 1].m)) <= 1
\* ---- the error surface adds up to the statistics of the best derivation everywhere
RECURSIVE CumFrom(_, _, _, _)
CumFrom(surf, x, k, acc) == IF k > Len(surf) THEN acc
   ELSE CumFrom(surf, x, k + 1, IF surf[k].x <= x THEN [i \in 1..Len(acc) |-> acc[i] + surf[k].f[i]] ELSE acc)
SurfOk(H, surf) ==
   /\ \A k \in 1..Len(surf) : \E i \in 1..Len(H) : H[i].x = surf[k].x
   /\ \A i \in 1..Len(H) : (i = Len(H) \/ H[i + 1].x > H[i].x + 1) =>
        Near(CumFrom(surf, H[i].x, 1, [q \in 1..Len(H[i].st) |-> 0]), H[i].st, 2)
\* ---- the corpus along the line
SegAt(H, x) == LET ok == {i \in 1..Len(H) : H[i].x <= x} IN CHOOSE i \in ok : \A j \in ok : j <= i
StatAt(r, x) == SumOf([k \in 1..Len(r.sents) |-> LET H == r.sents[k].hull IN H[SegAt(H, x)].st])
AllB(r) == UNION {{r.sents[k].hull[i].x : i \in 1..Len(r.sents[k].hull)} : k \in 1..Len(r.sents)}
StepOk(r, pos, sc, eps) ==
   LET B == AllB(r)
       after(x) == {y \in B : y > x}
       Right(x) == CHOOSE y \in after(x) : \A z \in after(x) : y <= z
       tol(s) == Tol(r.m, s)
   IN /\ pos > NegInf /\ pos < 1999999998
      \* the step has the score that was reported (and is not on the edge of an interval that has it)
      /\ \A dx \in {-2, 2} : LET s == StatAt(r, pos + dx)  e == Expected(r.m, s) IN e # NoScore => AbsM(sc - e) <= tol(s)
      /\ \A x \in B : (x = NegInf \/ after(x) = {} \/ Right(x) - x > eps + 2) =>
           LET s == StatAt(r, x)  f == Expected(r.m, s)  t == tol(s) IN
           f # NoScore => IF r.err = 1 THEN sc <= f + t ELSE sc >= f - t
LineOk(r) ==
   /\ \A k \in 1..Len(r.sents) :
        LET s == r.sents[k] IN
        /\ HullOk(s.F, r.O, r.D, s.hull)
        /\ \A i \in 1..Len(s.hull) : StatsOk(r.m, s.r, s.hull[i].y, <<>>, <<>>, s.hull[i].st)
        /\ SurfOk(s.hull, s.surf)
   /\ StepOk(r, r.pos, r.sc, r.eps)
   /\ \A q \in 1..Len(r.mr) : StepOk(r, r.mr[q].pos, r.mr[q].sc, 15)
DirsOk(r) ==
   LET k == IF r.inc = 1 THEN Len(r.f) ELSE 0 IN
   /\ Len(r.dirs) = k + r.n
   /\ \A i \in 1..Len(r.dirs) :
        /\ AbsM(r.dirs[i].l2 - 1000000) <= 2 /\ r.dirs[i].x = 0
        /\ \A j \in 1..r.nf : r.dirs[i].v[j] # 0 => \E q \in 1..Len(r.f) : r.f[q] = j
   /\ \A i \in 1..k : r.dirs[i].v[r.f[i]] = 10000
   \* the random ones are not all the same
   /\ (r.n > 1 /\ Len(r.f) > 1) => \E i \in (k + 1)..Len(r.dirs), j \in (k + 1)..Len(r.dirs) : r.dirs[i].v # r.dirs[j].v
Accepted ==
  st = "case" =>
    LET r == Trace[l] IN
    IF "crash" \in DOMAIN r THEN FALSE
    ELSE IF r.k = "dirs" THEN DirsOk(r) ELSE LineOk(r)
=============================================================================
