-------------------------- MODULE PhraseBasedTrace --------------------------
(* Judges recorded phrase-based translations.                               *)
EXTENDS PhraseBased, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 16
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} : l' = k /\ st' = "case"
\* derivations of a node of the observed forest, as sequences (with repetitions) of shown steps
Nz(fs) == {x \in Rng(fs) : x[2] # 0}
Src(f) == [k \in 1..Len(f) |-> f[k][2]]
Leaf(ed) == <<ed.i, ed.j, Src(ed.f), ed.e, Nz(ed.fs)>>
Var(k) == CASE k = 1 -> "[1]" [] k = 2 -> "[2]" [] OTHER -> "[?]"
Cross(a, b) == FoldLeft(LAMBDA acc, x : acc \o [q \in 1..Len(b) |-> x \o b[q]], <<>>, a)
OfEdge(T, ed) ==
  CASE Len(ed.t) = 0 -> <<<<Leaf(ed)>>>>
    [] Len(ed.t) = 1 /\ ed.e = <<"[1]">> /\ Nz(ed.fs) = {} -> T[ed.t[1] + 1]
    [] Len(ed.t) = 2 /\ ed.e = <<"[1]", "[2]">> /\ Nz(ed.fs) = {} -> Cross(T[ed.t[1] + 1], T[ed.t[2] + 1])
    [] OTHER -> <<<<"?">>>>
Table(F) == FoldLeft(LAMBDA T, v : Append(T, FoldLeft(LAMBDA acc, x : acc \o OfEdge(T, F.E[x]), <<>>, F.in[v])), <<>>, [v \in 1..F.n |-> v])
Sorted(F) == \A i \in 1..Len(F.E) : \A k \in 1..Len(F.E[i].t) : F.E[i].t[k] < F.E[i].h
Count(f, x) == Cardinality({i \in DOMAIN f : f[i] = x})
SameBag(f, g) == LET vals == {f[i] : i \in DOMAIN f} \cup {g[i] : i \in DOMAIN g} IN \A x \in vals : Count(f, x) = Count(g, x)
OneOk(r, k) ==
  LET L == r.lat[k]
      T == IF r.pass THEN WithCopies(L, r.T) ELSE r.T
      want == Derivs(L, T, r.D)
      res == r.res[k] IN
  IF want = {} THEN res.ok = 0
  ELSE /\ res.ok = 1 /\ Sorted(res.F)
       /\ LET got == Table(res.F)[res.F.n] IN
          /\ Len(got) = Cardinality(want)
          /\ SameBag([d \in want |-> Shown(T, d)], got)
Accepted ==
  st = "case" =>
    LET r == Trace[l] IN
    IF "crash" \in DOMAIN r THEN FALSE
    ELSE Len(r.res) = Len(r.lat) /\ \A k \in 1..Len(r.lat) : OneOk(r, k)
=============================================================================
