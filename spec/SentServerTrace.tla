-------------------------- MODULE SentServerTrace --------------------------
EXTENDS SentServer, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 16
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} : l' = k /\ st' = "case"
Accepted ==
  st = "case" =>
    LET r == Trace[l] IN
    \* whole programs over the loopback network, one client staying
    IF "e2e" \in DOMAIN r THEN r.code = 0 /\ r.out = [i \in 1..Len(r.lines) |-> IF r.lines[i] = SYNCH THEN SYNCH ELSE r.lines[i] \o "/"]
    ELSE LET
        Z == FoldLeft(Step, Fresh(r.nc, r.stay), r.h) IN
    /\ Good(Z)
    /\ Len(r.h) > 0 /\ r.h[Len(r.h)].k \in {"exit", "stuck"}
Why == LET r == Trace[l] IN FoldLeft(Step, Fresh(r.nc, r.stay), r.h).bad
=============================================================================
