------------------------------- MODULE KBest -------------------------------
(***************************************************************************)
(* Lazy k-best enumeration over a forest (Huang & Chiang 2005, Alg. 3) as  *)
(* a state machine.  Each node keeps the derivations found so far (best    *)
(* first) and a frontier of candidates <<edge, ranks of the tails>>.  Any  *)
(* node may take its best candidate as soon as the successors of its last  *)
(* one are resolved; the demand order of the code is one schedule of this. *)
(***************************************************************************)
EXTENDS Forest
CONSTANTS WOf(_)     \* edge record -> integer score
VARIABLES F,         \* the forest
          found,     \* [node -> sequence of <<edge, ranks>>]
          cand,      \* [node -> set of <<edge, ranks>>]
          seen       \* [node -> set of <<edge, ranks>> ever proposed]
kvars == <<F, found, cand, seen>>

Nodes == 0..(F.n - 1)
RECURSIVE TreeOf(_, _, _), ScoreOf(_, _, _)
TreeOf(fnd, i, ranks) ==
  <<i>> \o [k \in 1..Len(ranks) |-> LET u == Ed(F, i).t[k]  c == fnd[u][ranks[k]] IN TreeOf(fnd, c[1], c[2])]
ScoreOf(fnd, i, ranks) ==
  WOf(Ed(F, i)) + SumSeq([k \in 1..Len(ranks) |-> LET u == Ed(F, i).t[k]  c == fnd[u][ranks[k]] IN ScoreOf(fnd, c[1], c[2])])

KInit(G) ==
  /\ F = G
  /\ found = [v \in 0..(G.n - 1) |-> <<>>]
  /\ cand = [v \in 0..(G.n - 1) |-> {<<i, [k \in 1..Len(Ed(G, i).t) |-> 1]>> : i \in InE(G, v)}]
  /\ seen = cand
\* a candidate can be scored only once the ranks it names are known
Known(c) == \A k \in 1..Len(c[2]) : c[2][k] <= Len(found[Ed(F, c[1]).t[k]])
Exhausted(v) == cand[v] = {}
\* nothing more will come out of node u at rank r
Resolved(u, r) == r <= Len(found[u]) \/ Exhausted(u)
Viable(v) == {c \in cand[v] : Known(c)}
Pending(v) == \E c \in cand[v] : \E k \in 1..Len(c[2]) : ~Resolved(Ed(F, c[1]).t[k], c[2][k])
Succ(c) == { <<c[1], [c[2] EXCEPT ![k] = @ + 1]>> : k \in 1..Len(c[2]) }

Take(v) ==
  /\ ~Pending(v) /\ Viable(v) # {}
  /\ \E c \in Viable(v) :
       /\ \A d \in Viable(v) : ScoreOf(found, d[1], d[2]) <= ScoreOf(found, c[1], c[2])
       /\ found' = [found EXCEPT ![v] = Append(@, c)]
       /\ cand' = [cand EXCEPT ![v] = (@ \ {c}) \cup (Succ(c) \ seen[v])]
       /\ seen' = [seen EXCEPT ![v] = @ \cup Succ(c)]
  /\ UNCHANGED F
\* a candidate naming a rank that does not exist
Drop(v) ==
  /\ \E c \in cand[v] : /\ ~Known(c) /\ ~Pending(v)
                        /\ cand' = [cand EXCEPT ![v] = @ \ {c}]
  /\ UNCHANGED <<F, found, seen>>
KNext == \E v \in Nodes : Take(v) \/ Drop(v)

------------------------------------------------------------------------------
TreeSc(t) == TreeSum([i \in 1..Len(F.E) |-> WOf(F.E[i])], t)
Out(v) == [r \in 1..Len(found[v]) |-> TreeOf(found, found[v][r][1], found[v][r][2])]
\* what each node has produced is a prefix of a best-first enumeration of its derivations
TopPrefix ==
  LET T == DerivTable(F) IN
  \A v \in Nodes :
    LET all == {d.t : d \in T[v + 1]}  o == Out(v) IN
      /\ Rng(o) \subseteq all /\ Cardinality(Rng(o)) = Len(o)
      /\ \A r \in 2..Len(o) : TreeSc(o[r]) <= TreeSc(o[r - 1])
      /\ \A x \in all \ Rng(o) : Len(o) > 0 => TreeSc(x) <= TreeSc(o[Len(o)])
      /\ (cand[v] = {} => Rng(o) = all)
=============================================================================
