-------------------------- MODULE AlignmentsTrace --------------------------
(* Records of real runs of the alignment tool: each is run through the      *)
(* state machine of Alignments and the final links compared.                *)
EXTENDS Alignments, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 16
AsSet(x) == {x[k] : k \in 1..Len(x)}
tvars == <<avars, l, st>>

NoCase == a = {} /\ b = {} /\ cmd = "convert" /\ res = {} /\ pend = {} /\ scan = {} /\ grew = FALSE /\ phase = "idle"
TInit == l = 0 /\ st = "start" /\ NoCase
Idle == UNCHANGED avars
PickChunk == st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk" /\ Idle
PickCase == st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} :
   /\ l' = k /\ st' = "case"
   /\ IF Trace[k].cmd = "fmeasure" THEN Idle
      ELSE LET A == AsSet(Trace[k].a)  B == AsSet(Trace[k].b)  c == Trace[k].cmd IN
        /\ a' = A /\ b' = B /\ cmd' = c
        /\ IF c \in GrowCmds
             THEN /\ res' = A \cap B /\ pend' = (A \cup B) \ (A \cap B) /\ scan' = pend'
                  /\ grew' = FALSE /\ phase' = "grow"
             ELSE res' = SetResult(c, A, B) /\ pend' = {} /\ scan' = {} /\ grew' = FALSE /\ phase' = "done"
Run == st = "case" /\ AStep /\ UNCHANGED <<l, st>>
TNext == PickChunk \/ PickCase \/ Run

\* agreement counts over a stream of hypothesis/reference pairs
RECURSIVE Sum3(_, _)
Sum3(ps, k) == IF k = 0 THEN <<0, 0, 0>> ELSE
   LET r == Sum3(ps, k - 1)  h == AsSet(ps[k].a)  g == AsSet(ps[k].b) IN
   <<r[1] + Cardinality(h \cap g), r[2] + Cardinality(h), r[3] + Cardinality(g)>>
Near(x, n, d) == \* x is n/d in millionths, to printing precision
   LET y == x * d - n * 1000000 IN y <= d /\ y >= -d
FOk(r) == LET t == Sum3(r.pairs, Len(r.pairs)) IN
   /\ Near(r.P, t[1], t[2]) /\ Near(r.R, t[1], t[3])
   /\ (t[1] > 0 => Near(r.F, 2 * t[1], t[2] + t[3]))

Accepted ==
  st = "case" =>
    LET r == Trace[l] IN
    IF "crash" \in DOMAIN r THEN FALSE
    ELSE IF r.cmd = "fmeasure" THEN FOk(r)
    ELSE phase = "done" => /\ AsSet(r.out) = res
                           /\ Len(r.out) = Cardinality(res)
                           /\ (cmd = "display" => AsSet(r.grid) = res)
RunBetween == st = "case" => Between
RunMaximal == st = "case" => GrowMaximal /\ FinalMaximal
\* every case must reach a verdict
Verdict == (st = "case" /\ "crash" \notin DOMAIN Trace[l] /\ Trace[l].cmd # "fmeasure") => (phase = "done" \/ ENABLED AStep)
=============================================================================
