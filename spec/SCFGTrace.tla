----------------------------- MODULE SCFGTrace -----------------------------
(* Judges recorded decodings: input, grammars and options against the forest. *)
EXTENDS SCFG, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 16
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} : l' = k /\ st' = "case"
\* the forest as observed
NodeKey(F, v) == LET es == {i \in 1..Len(F.E) : F.E[i].h = v - 1} IN
                 LET e == F.E[CHOOSE i \in es : TRUE] IN <<F.c[v], e.i, e.j>>
Keyed(F) == /\ \A v \in 1..F.n : \E i \in 1..Len(F.E) : F.E[i].h = v - 1
            /\ \A i \in 1..Len(F.E) : \A k \in 1..Len(F.E) : F.E[i].h = F.E[k].h => F.E[i].i = F.E[k].i /\ F.E[i].j = F.E[k].j
            /\ \A v, u \in 1..F.n : NodeKey(F, v) = NodeKey(F, u) => v = u
            /\ F.c[F.n] = "Goal"
            /\ \A i \in 1..Len(F.E) : F.E[i].lhs = F.c[F.E[i].h + 1] /\ \A k \in 1..Len(F.E[i].t) : F.E[i].t[k] < F.E[i].h
            /\ \A i \in 1..Len(F.E) : i \in Rng(F.in[F.E[i].h + 1]) 
            /\ \A v \in 1..F.n : \A k \in 1..Len(F.in[v]) : F.E[F.in[v][k]].h = v - 1
Seen(F) == [i \in 1..Len(F.E) |-> <<NodeKey(F, F.E[i].h + 1), F.E[i].f, F.E[i].e,
                                    [k \in 1..Len(F.E[i].t) |-> NodeKey(F, F.E[i].t[k] + 1)], {x \in Rng(F.E[i].fs) : x[2] # 0}>>]
Count(f, x) == Cardinality({i \in DOMAIN f : f[i] = x})
SameBag(f, g) == LET vals == {f[i] : i \in DOMAIN f} \cup {g[i] : i \in DOMAIN g} IN \A x \in vals : Count(f, x) = Count(g, x)
ForestOk(lat, G, goal, res) ==
  LET want == LicensedForest(lat, G, goal) IN
  IF want = {} THEN res.ok = 0
  ELSE /\ res.ok = 1
       /\ Keyed(res.F)
       /\ SameBag([u \in want |-> Content(lat, G, goal, u)], Seen(res.F))
\* the grammars in force for the k-th input of a session
InForce(r, k) == r.G \o (IF r.sent[k] = <<>> THEN <<>> ELSE r.sent[k])
                     \o (IF r.glue THEN <<GlueG(r.goal, r.nt)>> ELSE <<>>)
                     \o (IF r.pass THEN <<PassG(r.lat[k], r.nt)>> ELSE <<>>)
Accepted ==
  st = "case" =>
    LET r == Trace[l] IN
    IF "crash" \in DOMAIN r THEN FALSE
    ELSE /\ Len(r.res) = Len(r.lat)
         /\ \A k \in 1..Len(r.lat) : ForestOk(r.lat[k], InForce(r, k), r.goal, r.res[k])
=============================================================================
