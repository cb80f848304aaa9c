---------------------------- MODULE RescoreTrace ----------------------------
(* Judges recorded rescorings: base forest, models, and one forest per strategy. *)
EXTENDS Rescore, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 16
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} : l' = k /\ st' = "case"
Fn(tab, val(_)) == [g \in {x[1] : x \in Rng(tab)} |-> val(CHOOSE x \in Rng(tab) : x[1] = g)]
Model(m) == IF m.kind # "lm" THEN m
            ELSE [kind |-> "lm", order |-> m.order, name |-> m.name, marked |-> m.marked, cls |-> m.cls,
                  p |-> Fn(m.tab, LAMBDA x : x[2]), b |-> Fn(m.tab, LAMBDA x : x[3])]
Accepted ==
  st = "case" =>
    LET r == Trace[l] IN
    IF "crash" \in DOMAIN r THEN FALSE
    ELSE LET ms == [k \in 1..Len(r.models) |-> Model(r.models[k])]
             want == Rescored(r.base, ms)
             w == Fn(r.w, LAMBDA x : x[2]) IN
         \A k \in 1..Len(r.runs) :
           LET x == r.runs[k] IN
           IF x.st = "incremental" THEN Incremental(r.base, ms[x.lm], w, x) ELSE
           /\ x.ok = 1
           /\ Faithful(r.base, want, x.F)
           /\ x.full => Complete(r.base, want, x.F)
           /\ Scored(w, x.F)
=============================================================================
