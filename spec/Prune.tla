------------------------------- MODULE Prune -------------------------------
(***************************************************************************)
(* Max-marginal pruning of a forest: a threshold is chosen, edges whose    *)
(* best complete derivation scores below it are cut one at a time (in any  *)
(* order), then what the goal no longer uses is dropped.                   *)
(***************************************************************************)
EXTENDS Forest
VARIABLES F, cut, c, ph
pvars == <<F, cut, c, ph>>
D == Derivations(F)
Sc(d) == d.f[1]
None == -1000
Best(i) == LET S == {d \in D : Occ(i, d.t) > 0} IN IF S = {} THEN None ELSE SetMax({Sc(d) : d \in S})
Top == SetMax({Sc(d) : d \in D})
PInit(G) == F = G /\ cut = {} /\ c = None /\ ph = "pick"
Pick == ph = "pick" /\ c' \in {Best(i) : i \in EdgeIds(F)} \cup {Top - 1} /\ c' <= Top /\ ph' = "cut" /\ UNCHANGED <<F, cut>>
Cut == ph = "cut" /\ \E i \in EdgeIds(F) \ cut : Best(i) < c /\ cut' = cut \cup {i} /\ UNCHANGED <<F, c, ph>>
Stop == ph = "cut" /\ (\A i \in EdgeIds(F) \ cut : Best(i) >= c) /\ ph' = "done" /\ UNCHANGED <<F, cut, c>>
PNext == Pick \/ Cut \/ Stop
Left == {d \in D : TreeEdges(d.t) \cap cut = {}}
\* never loses a best derivation, at any moment
BestKept == \E d \in Left : Sc(d) = Top
\* when finished, every uncut edge is still used by a complete derivation at or above the threshold
Closed == ph = "done" => \A i \in EdgeIds(F) \ cut : Best(i) # None => \E d \in Left : Occ(i, d.t) > 0 /\ Sc(d) >= c
\* everything at or above the threshold survives
AboveKept == ph = "done" => \A d \in D : Sc(d) >= c => d \in Left
=============================================================================
