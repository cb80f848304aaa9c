---------------------------- MODULE ForestTrace ----------------------------
(* Judges recorded runs of the forest operations: each record holds the     *)
(* forest(s), the operation with its arguments, and what the code returned. *)
EXTENDS Forest, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 16
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} : l' = k /\ st' = "case"

Min2(a, b) == IF a < b THEN a ELSE b
NegInf == -999999
Near(x, num, den, scale) == LET y == x * den - num * scale IN y <= den /\ y >= -den

------------------------------------------------------------------------------
(* Viterbi and k-best *)
FieldMatch(x, d, sc) == x.s = sc /\ x.y = d.y /\ x.f = d.f
NonInc(list) == \A i \in 2..Len(list) : list[i].s <= list[i - 1].s
KBestOk(list, D, k, w) ==     \* D : set of derivations
  /\ Len(list) = Min2(k, Cardinality(D))
  /\ NonInc(list)
  /\ Cardinality({list[i].t : i \in 1..Len(list)}) = Len(list)
  /\ \A i \in 1..Len(list) : \E d \in D : d.t = list[i].t /\ FieldMatch(list[i], d, Dot(w, d.f))
  /\ Len(list) < Cardinality(D) => LET T == {list[i].t : i \in 1..Len(list)} IN
       \A d \in D : d.t \in T \/ Dot(w, d.f) <= list[Len(list)].s
BestOfYield(D, y, w) == SetMax({Dot(w, d.f) : d \in {x \in D : x.y = y}})
UniqueOk(list, D, k, w, withTrees) ==
  LET Y == {d.y : d \in D} IN
  /\ Len(list) = Min2(k, Cardinality(Y))
  /\ NonInc(list)
  /\ Cardinality({list[i].y : i \in 1..Len(list)}) = Len(list)
  /\ \A i \in 1..Len(list) :
        /\ list[i].y \in Y
        /\ list[i].s = BestOfYield(D, list[i].y, w)
        /\ withTrees => \E d \in D : d.t = list[i].t /\ FieldMatch(list[i], d, Dot(w, d.f))
  /\ Len(list) < Cardinality(Y) =>
       \A y \in Y : y \in {list[i].y : i \in 1..Len(list)} \/ BestOfYield(D, y, w) <= list[Len(list)].s
ViterbiOk(v, F, D, w) ==
  LET best == SetMax({Dot(w, d.f) : d \in D}) IN
  /\ v.s = best /\ v.s2 = best /\ v.s3 = best
  /\ \E d \in D : Dot(w, d.f) = best /\ d.t = v.t
  /\ \E d \in D : Dot(w, d.f) = best /\ d.y = v.y
  /\ \E d \in D : Dot(w, d.f) = best /\ d.f = v.f
  /\ \E d \in D : Dot(w, d.f) = best /\ Len(d.y) = v.el
  /\ \E d \in D : Dot(w, d.f) = best /\ TreeSize(d.t) = v.pl
  \* the forest of the Viterbi derivation only: contains a best derivation, and nothing unreal
  /\ WellFormed(v.vh)
  /\ LET T == DumpTrees(v.vh) IN T \subseteq {d.t : d \in D} /\ \E d \in D : Dot(w, d.f) = best /\ d.t \in T
BestOk(r) ==
  LET D == Derivations(r.g) IN
  /\ KBestOk(r.kb, D, r.k, r.w)
  /\ UniqueOk(r.ku, D, r.k, r.w, TRUE)
  /\ UniqueOk(r.ky, D, r.k, r.w, FALSE)
  /\ ViterbiOk(r.v, r.g, D, r.w)

------------------------------------------------------------------------------
(* Sums over derivations *)
Pow(x, n) == IF n = 1 THEN x ELSE x * x
SumsOk(r) ==
  LET F == r.g
      T == DerivTable(F)
      D == T[F.n]
      p == [i \in 1..Len(F.E) |-> F.E[i].p]
      ps == [i \in 1..Len(F.E) |-> Pow(F.E[i].p, r.scale)]
      W(S, q) == SumOver(S, LAMBDA d : TreeProd(q, d.t))
      OccN(v, t) == SumOver(InE(F, v), LAMBDA i : Occ(i, t))
      Z == W(D, p)
      LS(t) == TreeSum(r.lw, t)
      best(S) == IF S = {} THEN NegInf ELSE SetMax({LS(d.t) : d \in S})
  IN
  /\ \A v \in 1..F.n : r.in[v] = W(T[v], p)
  /\ r.z = Z /\ r.ze = Z /\ r.prp = Z
  \* outside x inside = weight of the derivations through the node, with multiplicity
  /\ \A v \in 1..F.n : r.out[v] * r.in[v] = SumOver(D, LAMBDA d : OccN(v - 1, d.t) * TreeProd(p, d.t))
  /\ r.zs = W(D, ps)
  /\ \A i \in 1..Len(F.E) : r.post[i] = SumOver(D, LAMBDA d : Occ(i - 1, d.t) * TreeProd(ps, d.t))
  /\ r.np = Cardinality(D)
  /\ \A j \in 1..F.nf : r.ex[j] = SumOver(D, LAMBDA d : d.f[j] * TreeProd(p, d.t))
  /\ r.prr = SumOver(D, LAMBDA d : TreeSize(d.t) * TreeProd(p, d.t))
  /\ r.bz = best(D)
  /\ \A v \in 1..F.n : r.nv[v] = best(T[v])
  /\ \A i \in 1..Len(F.E) : /\ r.bp[i] = best({d \in D : Occ(i - 1, d.t) > 0})
                            /\ r.ev[i] = best({d \in T[F.E[i].h + 1] : d.t[1] = i - 1})
\* after normalisation every edge carries its conditional probability given its head
PushOk(r) ==
  LET F == r.g  D == Derivations(F)
      ps == [i \in 1..Len(F.E) |-> Pow(F.E[i].p, r.scale)]
      num(i) == SumOver(D, LAMBDA d : Occ(i, d.t) * TreeProd(ps, d.t)) IN
  /\ r.z = SumOver(D, LAMBDA d : TreeProd(ps, d.t))
  /\ \A i \in EdgeIds(F) : LET den == SumOver(InE(F, Ed(F, i).h), num) IN
        den > 0 => Near(r.p[i + 1], num(i), den, 100000)

------------------------------------------------------------------------------
(* Pruning.  A = max-marginal (or posterior) of every edge. *)
SubTreesOf(D) == {d.t : d \in D}
\* edges reachable from the goal when `kill` is cut (the cut edges' tails are not followed)
RECURSIVE ReachFrom(_, _, _)
ReachFrom(F, kill, nodes) ==
  LET more == nodes \cup UNION {Rng(Ed(F, i).t) : i \in {j \in EdgeIds(F) : j \notin kill /\ Ed(F, j).h \in nodes}} IN
  IF more = nodes THEN {j \in EdgeIds(F) : j \notin kill /\ Ed(F, j).h \in nodes} ELSE ReachFrom(F, kill, more)
\* edges whose tails can still be built
Buildable(F, kill) ==
  LET T == FoldLeft(LAMBDA S, v : IF \E i \in InE(F, v) : i \notin kill /\ Rng(Ed(F, i).t) \subseteq S THEN S \cup {v} ELSE S, {}, TopoOrder(F)) IN
  {i \in EdgeIds(F) : i \notin kill /\ Rng(Ed(F, i).t) \subseteq T}
EdgesOf(D) == {D.E[i].id : i \in 1..Len(D.E)}
\* the dump holds exactly the given edges of F, connected as in F, with their content
SameEdges(F, D, S, probs) ==
  /\ EdgesOf(D) = S /\ Len(D.E) = Cardinality(S)
  /\ \E m \in {[i \in 1..Len(D.E) |-> D.E[i].id]} :
       \A i \in 1..Len(D.E) :
         LET o == Ed(F, m[i]) IN
         /\ D.E[i].f = o.f /\ D.E[i].x = 0 /\ D.E[i].e = o.e
         /\ Len(D.E[i].t) = Len(o.t)
         /\ (probs # <<>> => probs[i][1] = probs[i][2])
         \* heads and tails correspond: two edges share a node in D iff they do in F
         /\ \A j \in 1..Len(D.E) :
              /\ (D.E[i].h = D.E[j].h) <=> (o.h = Ed(F, m[j]).h)
              /\ \A k \in 1..Len(o.t) : (D.E[i].t[k] = D.E[j].h) <=> (o.t[k] = Ed(F, m[j]).h)
PruneOk(r) ==
  LET F == r.g  M == Len(F.E)
      D == Derivations(F)
      lin == [i \in 1..M |-> F.E[i].p]
      sc(d) == IF r.sum THEN TreeProd(lin, d.t) ELSE Dot(r.w, d.f)
      \* posterior numerators (sum) or max-marginals
      A(i) == LET S == {d \in D : Occ(i, d.t) > 0} IN
              IF r.sum THEN SumOver(D, LAMBDA d : Occ(i, d.t) * sc(d))
              ELSE IF S = {} THEN NegInf ELSE SetMax({sc(d) : d \in S})
      AT == [i \in 1..M |-> A(i - 1)]
      best == SetMax({sc(d) : d \in D})
      bestTrees == {d \in D : sc(d) = best}
      \* density: the (rnum+1)-th greatest value is the threshold
      sorted == SortSeq(AT, >)
      kept == Rng(r.mask)
      res == EdgesOf(r.r)
      \* `kill` is what the thresholds ask to cut: everything below, ties either way
      Ok(below, tie) ==
        \E X \in SUBSET (tie \ kept) :
          LET kill == (below \ kept) \cup X
              kill2 == IF r.safe THEN EdgeIds(F) \ Buildable(F, kill) ELSE kill IN
            res = ReachFrom(F, kill2, {F.n - 1})
      plens == {TreeSize(d.t) : d \in bestTrees}
      DensCut(pl) == LET rn == Min2(M, (r.dens4 * pl) \div 4) IN IF rn = M THEN NegInf - 1 ELSE sorted[rn + 1]
      \* beam: log score more than alpha below the best (alpha is a half integer or an integer)
      BeamBelow == {i \in EdgeIds(F) : 2 * AT[i + 1] < 2 * best - r.alpha2 * r.wdiv}
      BeamTie == {i \in EdgeIds(F) : 2 * AT[i + 1] = 2 * best - r.alpha2 * r.wdiv}
      DBelow(c) == {i \in EdgeIds(F) : AT[i + 1] < c}
      DTie(c) == {i \in EdgeIds(F) : AT[i + 1] = c}
      Cut(c) ==
        IF r.dens4 = 0 THEN Ok(BeamBelow, BeamTie)
        ELSE IF r.alpha2 = 0 THEN Ok(DBelow(c), DTie(c))
        ELSE \* both: the tighter threshold wins
             LET b == DBelow(c) \cup BeamBelow IN Ok(b, (DTie(c) \cup BeamTie) \ b)
  IN
  /\ WellFormed(r.r)
  /\ SameEdges(F, r.r, res, IF r.sum THEN <<>> ELSE [i \in 1..Len(r.r.E) |-> <<r.p[i], Dot(r.w, Ed(F, r.r.E[i].id).f)>>])
  \* only real derivations remain, and a best one is among them
  /\ (DumpTrees(r.r) \subseteq SubTreesOf(D))
  /\ (~r.sum => \E d \in bestTrees : d.t \in DumpTrees(r.r))
  /\ (~r.sum => r.best = best)
  /\ ((kept = {} \/ r.safe) /\ Useful([n |-> F.n, E |-> F.E]) => Useful(r.r))
  \* a density that asks for at least as many edges as there are leaves the forest alone
  /\ \E pl \in plens : IF r.alpha2 = 0 /\ DensCut(pl) = NegInf - 1 THEN res = EdgeIds(F) ELSE Cut(DensCut(pl))
\* a node with n parallel edges (score 0 at one place, else -1 at odd and -20 at even places), beam between
PruneBigOk(r) ==
  LET odd == (r.n \div 2) - (IF r.at % 2 = 1 THEN 1 ELSE 0) IN
  /\ r.best = 0 /\ r.odd = odd /\ r.left = odd + 2
\* cutting a given set of edges
EdgesOk(r) ==
  LET F == r.g  kill == Rng(r.mask)
      all == EdgeIds(F)
      build == Buildable(F, kill)
      want == IF r.sub THEN build ELSE ReachFrom(F, IF r.safe THEN all \ build ELSE kill, {F.n - 1})
      goalOk == \E i \in InE(F, F.n - 1) : i \in build
  IN
  /\ (r.sub => Rng(r.keep) = build)
  /\ IF r.safe /\ ~goalOk /\ ~r.sub THEN r.r.E = <<>> /\ r.r.n = 1
     ELSE /\ SameEdges(F, r.r, want, <<>>)
          /\ (goalOk => WellFormed(r.r))
          /\ (goalOk => DumpTrees(r.r) = {d.t : d \in {x \in Derivations(F) : TreeEdges(x.t) \cap kill = {}}})

------------------------------------------------------------------------------
(* Reordering, merging, storing *)
TopoOk(r) ==
  LET F == r.g
      T == DerivTable(F)
      D == {d \in T[r.goal + 1] : TreeEdges(d.t) \cap Rng(r.mask) = {}} IN
  /\ WellFormed(r.r)
  /\ DumpTrees(r.r) = SubTreesOf(D)
  /\ SameEdges(F, r.r, ReachFrom(F, Rng(r.mask), {r.goal}), <<>>)
\* content of an edge, without positions
Sig(x) == <<x.s, x.e, x.f>>
RECURSIVE ContentTree(_, _)
ContentTree(D, t) == <<Sig(D.E[t[1] + 1])>> \o [k \in 1..(Len(t) - 1) |-> ContentTree(D, t[k + 1])]
ContentTrees(D) == {ContentTree(D, d.t) : d \in Derivations([n |-> D.n, E |-> D.E])}
\* the forest in which nodes with the same identity are one node
MergedEdges(g, gh, b, bh) == {<<gh[x.h + 1], [k \in 1..Len(x.t) |-> gh[x.t[k] + 1]], Sig(x)>> : x \in Rng(g.E)}
                             \cup {<<bh[x.h + 1], [k \in 1..Len(x.t) |-> bh[x.t[k] + 1]], Sig(x)>> : x \in Rng(b.E)}
RECURSIVE HashTrees(_, _)
HashTrees(ES, h) == UNION {{<<x[3]>> \o kids : kids \in Prod([k \in 1..Len(x[2]) |-> HashTrees(ES, x[2][k])])} : x \in {y \in ES : y[1] = h}}
RENB == 1000
RECURSIVE RenB(_)
RenB(t) == <<t[1] + RENB>> \o [k \in 1..(Len(t) - 1) |-> RenB(t[k + 1])]
UnionOk(r) ==
  LET DA == Derivations(r.g)  DB == Derivations(r.b)
      all == {ContentTree(r.da, d.t) : d \in DA} \cup {ContentTree(r.db, d.t) : d \in DB} IN
  /\ WellFormed(r.r)
  /\ IF r.plain
       THEN \* multiset union: nothing is merged, every derivation of either forest once
            {Rename(r.r, d.t) : d \in Derivations([n |-> r.r.n, E |-> r.r.E])}
              = {d.t : d \in DA} \cup {RenB(d.t) : d \in DB}
       ELSE \* merged by node identity: exactly the derivations of the merged graph, none twice
            LET R == ContentTrees(r.r) IN
            /\ all \subseteq R
            /\ R = HashTrees(MergedEdges(r.da, r.g.hash, r.db, r.b.hash), r.g.hash[r.g.n])
            /\ Cardinality(R) = Cardinality(Derivations([n |-> r.r.n, E |-> r.r.E]))
  /\ \A i \in 1..Len(r.r.E) : r.r.E[i].x = 0
\* writing and reading back: the same graph, rules, spans and features
IoOk(r) ==
  /\ r.ok = 1 /\ r.lin = 1
  /\ r.a = r.r
  /\ WellFormed(r.r)
  /\ \A i \in 1..Len(r.g.E) : LET o == r.g.E[i]  x == r.r.E[i] IN
        x.h = o.h /\ x.t = o.t /\ x.f = o.f /\ x.rf = o.f /\ x.e = o.e /\ x.sp = o.sp /\ x.ar = Len(o.t)
        /\ Len(x.s) = Len(o.s)
        /\ \A k \in 1..Len(o.s) : IF o.s[k] > 0 THEN x.s[k] = o.s[k]
             ELSE x.s[k] = -100 - r.g.c[o.t[Cardinality({q \in 1..k : o.s[q] <= 0})] + 1]
  /\ r.r.c = r.g.c
  /\ r.v1 = r.v2
\* removing the empty word (word 9)
NoEps(y) == SelectSeq(y, LAMBDA x : x # 9)
EpsOk(r) ==
  LET D == Derivations(r.g)
      want == [d \in D |-> <<NoEps(d.y), d.f>>]
      RD == Derivations([n |-> r.r.n, E |-> r.r.E])
      got == [d \in RD |-> <<d.y, d.f>>]
      vals == {want[d] : d \in D} \cup {got[d] : d \in RD} IN
  \A v \in vals : Cardinality({d \in D : want[d] = v}) = Cardinality({d \in RD : got[d] = v})

------------------------------------------------------------------------------
Accepted ==
  st = "case" =>
    LET r == Trace[l] IN
    IF "crash" \in DOMAIN r THEN FALSE
    ELSE CASE r.op = "best"  -> BestOk(r)
           [] r.op = "sums"  -> SumsOk(r)
           [] r.op = "push"  -> PushOk(r)
           [] r.op = "prune" -> PruneOk(r)
           [] r.op = "prunebig" -> PruneBigOk(r)
           [] r.op = "edges" -> EdgesOk(r)
           [] r.op = "topo"  -> TopoOk(r)
           [] r.op = "union" -> UnionOk(r)
           [] r.op = "io"    -> IoOk(r)
           [] r.op = "eps"   -> EpsOk(r)
           [] OTHER -> FALSE
=============================================================================
