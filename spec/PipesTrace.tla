---------------------------- MODULE PipesTrace ----------------------------
(* Observations of real queues, pools, chains and sorters under a deterministic scheduler.  *)
EXTENDS PCQueue, ExtSort, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == 1..((Len(Trace) + 63) \div 64)
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in Chunks : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E i \in ((l - 1) * 64 + 1)..(l * 64) : i <= Len(Trace) /\ l' = i /\ st' = "case"
\* ---- queue
QueueOk(r) == LET S == Explained(r.ev, r.threads, r.cap) IN
   IF r.end = "ok" THEN \E c \in S : AllIdle(c)
   ELSE r.end = "deadlock" /\ \E c \in S : Blocked(c, r.cap)
\* ---- pool: events <<worker, 0/1, request>>, and <<0, 6, 0>> when the pool is gone
PoolOk(r) ==
   /\ r.end = "ok" /\ Len(r.ev) = 2 * Len(r.req) + 1
   /\ r.ev[Len(r.ev)][2] = 6
   /\ LET E == SubSeq(r.ev, 1, Len(r.ev) - 1) IN
      /\ \A q \in ToSet(r.req) : \A k \in {0, 1} : Cardinality({i \in 1..Len(E) : E[i][2] = k /\ E[i][3] = q}) = Cardinality({i \in 1..Len(r.req) : r.req[i] = q})
      /\ \A w \in {E[i][1] : i \in 1..Len(E)} :       \* a worker finishes one request before the next
            LET mine == SelectSeq(E, LAMBDA e : e[1] = w) IN
            /\ w \in 1..r.workers /\ Len(mine) % 2 = 0
            /\ \A j \in 1..(Len(mine) \div 2) : mine[2 * j - 1][2] = 0 /\ mine[2 * j][2] = 1 /\ mine[2 * j][3] = mine[2 * j - 1][3]
\* ---- chains: the stages as functions on sequences of records (key * 1000 + payload)
Drops(s, m, k) == SelectSeq(s, LAMBDA v : ((v \div 1000) % m) # k)
AddKey(s, c) == [i \in 1..Len(s) |-> s[i] + 1000 * c]
Fans(s, n, i, small) == LET sel == SelectSeq(s, LAMBDA v : ((v \div 1000) % n) # i) IN
   [j \in 1..Len(sel) |-> LET x == sel[j] + 1000 * i IN IF small THEN x - (x % 1000) ELSE x]
\* state: what flows in each chain, what each file holds; observations consumed so far
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(r, S, i, flow, file, o, sz) ==
   IF i > Len(S) THEN [flow |-> flow, file |-> file, o |-> o, ok |-> TRUE]
   ELSE LET s == S[i]  c == s.ch + 1
            Bad == [flow |-> flow, file |-> file, o |-> o, ok |-> FALSE] IN
   IF s.k = "fan" THEN
      LET n == Len(r.es)
          f1 == [j \in 1..n |-> IF j = 1 THEN flow[1] ELSE Fans(flow[1], n, j - 1, r.es[j] < 8)] IN
      IF /\ \A j \in 1..n : r.obs[o + j - 1].out = f1[j] /\ r.obs[o + j - 1].ends = 1
         /\ r.obs[o].in = flow[1]
      THEN Walk(r, S, i + 1, f1, file, o + n, sz) ELSE Bad
   ELSE
      LET b == r.obs[o]
          g == CASE s.k \in {"src", "lsrc"} -> s.v
                 [] s.k = "add" -> AddKey(flow[c], s.c)
                 [] s.k = "drop" -> Drops(flow[c], s.m, s.r)
                 [] s.k \in {"read", "pread"} -> file[s.f + 1]
                 [] s.k = "fbread" -> file[sz + s.f + 1]
                 [] OTHER -> flow[c]
          seen == CASE s.k \in {"add", "drop", "main"} -> b.in = flow[c] /\ b.out = g /\ b.ends = 1
                    [] s.k \in {"src", "lsrc"} -> b.out = g /\ b.ends = 1
                    [] OTHER -> TRUE
          newfile == IF s.k \in {"write", "wrec"} THEN [file EXCEPT ![s.f + 1] = @ \o flow[c]]
                     ELSE IF s.k = "pwrec" THEN [file EXCEPT ![s.f + 1] = flow[c] \o SubSeq(@, Len(flow[c]) + 1, Len(@))]
                     ELSE IF s.k = "fbsink" THEN [file EXCEPT ![sz + s.f + 1] = flow[c] \o SubSeq(@, Len(flow[c]) + 1, Len(@))]
                     ELSE file
      IN IF b.k = s.k /\ seen THEN Walk(r, S, i + 1, [flow EXCEPT ![c] = g], newfile, o + 1, sz) ELSE Bad
RECURSIVE Rounds(_, _, _, _, _)
Rounds(r, k, file, o, sz) ==
   IF k > Len(r.rounds) THEN /\ \A f \in 1..sz : r.files[f] = file[f]
                             /\ o = Len(r.obs) + 1
   ELSE LET R == r.rounds[k]
            f0 == [f \in DOMAIN file |-> IF \E t \in 1..Len(R.trunc) : R.trunc[t] + 1 = f THEN <<>> ELSE file[f]]
            w == Walk(r, R.st, 1, [j \in 1..Len(r.es) |-> <<>>], f0, o, sz)
        IN w.ok /\ Rounds(r, k + 1, w.file, w.o, sz)
\* a block holds a positive whole number of records and all blocks fit into the memory
GeomOk(g, mem, n) == \A k \in 1..Len(mem) : LET bs == g[2 * k - 1]  es == g[2 * k] IN es > 0 /\ bs >= es /\ bs % es = 0 /\ bs * n[k] <= mem[k]
ChainOk(r) == r.end = "ok" /\ GeomOk(r.geom, r.mem, r.nb) /\ Rounds(r, 1, [f \in 1..(2 * r.nf) |-> <<>>], 1, r.nf)
\* ---- sorters
RecOf(v) == <<v \div 1000, v % 1000>>
Recs(s) == [i \in 1..Len(s) |-> RecOf(s[i])]
SortCaseOk(r) ==
   LET src == r.pre[1].v
       g == FoldLeft(LAMBDA acc, s : IF s.k = "drop" THEN Drops(acc, s.m, s.r) ELSE IF s.k = "add" THEN AddKey(acc, s.c) ELSE acc, src, r.pre)
       np == Len(r.pre)
       pieces == Cardinality({i \in 1..Len(r.blocks) : r.blocks[i] > 0})
       size == FoldLeft(LAMBDA a, x : a + x, 0, r.blocks)
   IN /\ r.end = "ok" /\ \A i \in 1..Len(r.obs) : r.obs[i].ends = 1
      /\ r.obs[np].out = g /\ size = Len(g) /\ r.geom[3] = size * r.geom[2]
      /\ IF r.mode = "steal" THEN SortOk(Recs(g), Recs(r.files[1]), r.comb = 1, pieces)
         ELSE LET first == r.obs[np + 1].in
                  rest == SubSeq(r.obs, np + 1, Len(r.obs)) IN
              /\ SortOk(Recs(g), Recs(first), r.comb = 1, pieces)
              /\ \A i \in 1..Len(rest) : /\ (i > 1 => rest[i].in = rest[i - 1].out)
                                          /\ (i <= Len(r.post) => rest[i].out = IF r.post[i].k = "add" THEN AddKey(rest[i].in, r.post[i].c) ELSE rest[i].in)
Accepted == st # "case" \/ LET r == Trace[l] IN ("crash" \notin DOMAIN r) /\
   CASE r.kind = "queue" -> QueueOk(r) [] r.kind = "pool" -> PoolOk(r) [] r.kind = "chain" -> ChainOk(r) [] OTHER -> SortCaseOk(r)
=============================================================================
