------------------------------ MODULE PoolTrace ------------------------------
(* Recorded pools, tuning runs and consensus decisions against Pool.          *)
EXTENDS Pool, TLC, Json, IOUtils
FR == INSTANCE Forest
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 32
TInit == l = 0 /\ st = "start"
PickChunk == st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk"
PickCase == st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} : l' = k /\ st' = "case"
TNext == PickChunk \/ PickCase

AsSet(L) == {[y |-> L[i].y, f |-> L[i].f] : i \in 1..Len(L)}
\* each candidate once, only known features, with the statistics of its own words
Sound(L, tab) == /\ Cardinality(AsSet(L)) = Len(L)
                 /\ \A i \in 1..Len(L) : /\ L[i].x = 0
                                         /\ \E q \in Range0(tab) : q.y = L[i].y /\ L[i].st = q.st
Row(tab, y) == CHOOSE q \in Range0(tab) : q.y = y
Cost4(r, y) == LET s == Row(r.tab, y).sc \div 100 IN IF r.err = 1 THEN s ELSE 10000 - s
RECURSIVE OpsOk(_, _, _)
OpsOk(r, i, old) ==
   i > Len(r.ops) \/
   LET o == r.ops[i]  L == r.after[i]  new == AsSet(L) IN
   /\ Sound(L, r.tab)
   /\ CASE o.op = "reload" -> new = old
        [] o.op = "add" -> AddOk(old, new, FR!Derivations(o.F), o.w, o.k)
        [] o.op = "uniq" -> UniqOk(old, new, FR!Derivations(o.F), o.w, o.k)
   /\ OpsOk(r, i + 1, new)
PoolOk(r) == /\ OpsOk(r, 1, {})
             /\ r.p # <<>> => LET P == AsSet(r.after[Len(r.after)]) IN
                              r.o.again /\ ExpectOk(P, r.p, LAMBDA c : Cost4(r, c.y), r.o)

\* ---- a tuning program over the sentences, run after run with one repository
PairLines(run, i) == run.lines[i]
RunOk(r, j) ==
   LET run == r.runs[j]
       P == [i \in 1..Len(run.sents) |-> AsSet(run.sents[i].repo)]
       sc(i, c) == Row(r.tab[i], c.y).sc IN
   /\ \A i \in 1..Len(run.sents) :
        LET s == run.sents[i]
            old == IF j = 1 THEN {} ELSE AsSet(r.runs[j - 1].sents[i].repo) IN
        /\ Sound(s.repo, r.tab[i])
        /\ AddOk(old, P[i], FR!Derivations(s.F), run.w, r.k)
   /\ r.prog = "pro" =>
        \* lines of the sentences follow one another; a sentence has all or none
        LET has(i) == Eligible(P[i], LAMBDA c : sc(i, c)) # {}
            full(i) == IF has(i) THEN 2 * r.xi ELSE 0
            start(i) == Sum0([q \in 1..(i - 1) |-> full(q)]) IN
        /\ Len(run.lines) = start(Len(P) + 1)
        /\ \A i \in 1..Len(P) :
             LET mine == SubSeq(run.lines, start(i) + 1, start(i) + full(i)) IN
             /\ PairsOk(P[i], LAMBDA c : sc(i, c), r.err, mine, r.xi)
             /\ has(i) => LET E == Eligible(P[i], LAMBDA c : sc(i, c))
                              top == MaxS({Gain(p, LAMBDA c : sc(i, c)) : p \in E}) IN
                          \E p \in E : Gain(p, LAMBDA c : sc(i, c)) >= top - 2 /\ Diff(p[1], p[2]) = mine[1].f
   /\ r.prog = "rampion" =>
        LET costs == [i \in 1..Len(P) |-> [c \in P[i] |-> LET s == sc(i, c) \div 1000 IN IF r.err = 1 THEN s ELSE 1000 - s]]
            W0 == [q \in 1..Len(run.w) |-> run.w[q] * r.a.SC]
            End == CccpF(P, {W0}, costs, r.a, r.a.cccp)
        IN \E W \in End : \A q \in 1..Len(W) : AbsP(run.out[q] - Micro(W[q], r.a.SC)) <= 3
MbrOk(r) ==
   LET one(g) == LET q == r.groups[g] IN
          [n |-> q.n, L |-> [i \in 1..Len(q.n) |-> [j \in 1..Len(q.n) |-> LET s == q.sc[i][j] \div 10 IN IF r.err = 1 THEN s ELSE 100000 - s]], y |-> q.y, id |-> q.id] IN
   /\ r.tail = 0
   /\ Len(r.out) = Len(r.groups)
   /\ \A g \in 1..Len(r.groups) :
        LET q == one(g)  N == Len(q.n)  Z == Total(q.n)
            e(i) == ExpLoss(q.L, q.n, i)
            best == MinS({e(i) : i \in 1..N})
            o == r.out[g] IN
        IF r.list = 0 THEN \E i \in 1..N : q.y[i] = o[1].y /\ e(i) <= best + 3 * Z
        ELSE /\ Len(o) = N
             /\ \A i \in 1..N : o[i].id = q.id
             \* a permutation of the list with its expected losses, the smallest first
             /\ \E f \in Perms(N) : \A i \in 1..N : /\ q.y[f[i]] = o[i].y
                                                    /\ AbsP(o[i].e * Z - e(f[i])) <= 3 * Z
             /\ \A i \in 2..N : o[i].e >= o[i - 1].e - 1
Accepts(r) == IF "crash" \in DOMAIN r THEN FALSE
   ELSE CASE r.kind = "pool" -> PoolOk(r)
          [] r.kind = "tune" -> \A j \in 1..Len(r.runs) : RunOk(r, j)
          [] r.kind = "mbr" -> MbrOk(r)
Accepted == st = "case" => Accepts(Trace[l])
=============================================================================
