----------------------------- MODULE PLFTrace -----------------------------
(* Judges recorded reads and writes of lattice files.                       *)
EXTENDS PLF, TLC, Json, IOUtils, FiniteSetsExt
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 16
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} : l' = k /\ st' = "case"
Same(L, dump) == /\ Len(dump) = Len(L)
                 /\ \A v \in 1..Len(L) : /\ Len(dump[v]) = Len(L[v])
                      /\ \A k \in 1..Len(L[v]) : /\ dump[v][k].w = L[v][k].w /\ dump[v][k].d = L[v][k].d
                           /\ NonZero({dump[v][k].f[i] : i \in 1..Len(dump[v][k].f)}) = L[v][k].f
CostOnly(L) == [v \in 1..Len(L) |-> [k \in 1..Len(L[v]) |->
                  [L[v][k] EXCEPT !.f = {x \in L[v][k].f : x[1] = DenseName(0)}]]]
Has(L) == \A v \in 1..Len(L) : \A k \in 1..Len(L[v]) : \A x \in L[v][k].f : x[1] = DenseName(0)
Near(x, num, den) == LET y == x * den - num * 100000 IN y <= den /\ y >= -den
Wt(L, ws, p) == FoldLeft(LAMBDA a, b : a * b, 1, [i \in 1..Len(p) |-> ws[p[i][1]][p[i][2]]])
SumOver(S, w(_)) == FoldSet(LAMBDA x, a : a + w(x), 0, S)
PlfOk(r) ==
  LET p == Parse(r.text) IN
  /\ p.ok
  /\ Same(p.v, r.lat)                                   \* reading
  /\ Same(p.v, r.back)                                  \* writing and reading the lattice
  /\ LET q == Parse(r.out) IN q.ok /\ q.v = p.v          \* what was written denotes the lattice
  /\ LET h == Parse(r.hout) IN h.ok /\ h.v = CostOnly(p.v)   \* forest form keeps the arcs' scores
PushOk(r) ==
  LET p == Parse(r.text).v  P == Paths(p)
      through(v, k) == SumOver({x \in P : <<v, k>> \in {x[i] : i \in 1..Len(x)}}, LAMBDA x : Wt(p, r.ws, x))
      atnode(v) == SumOver({x \in P : \E i \in 1..Len(x) : x[i][1] = v}, LAMBDA x : Wt(p, r.ws, x)) IN
  \A v \in 1..Len(p) : atnode(v) > 0 => \A k \in 1..Len(p[v]) : Near(r.p[v][k], through(v, k), atnode(v))
Accepted ==
  st = "case" =>
    LET r == Trace[l] IN
    IF "crash" \in DOMAIN r THEN FALSE
    ELSE CASE r.op = "plf" -> PlfOk(r)
           [] r.op = "pushsrc" -> PushOk(r)
           [] OTHER -> FALSE
=============================================================================
