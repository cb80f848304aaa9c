--------------------------- MODULE InsideOutside ---------------------------
(***************************************************************************)
(* The two sweeps over a forest: nodes are visited once bottom-up and once *)
(* top-down; each visit folds in one incoming edge.  ins/outs are what the *)
(* code keeps per node.                                                    *)
(***************************************************************************)
EXTENDS Forest
VARIABLES F, ins, outs, ph, todo
iovars == <<F, ins, outs, ph, todo>>
W(e) == e.p
ProdSeq(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
IOInit(G) == F = G /\ ins = [v \in 1..G.n |-> 0] /\ outs = [v \in 1..G.n |-> IF v = G.n THEN 1 ELSE 0]
             /\ ph = "up" /\ todo = {i \in EdgeIds(G) : TRUE}
TailsDone(i) == \A k \in 1..Len(Ed(F, i).t) : \A j \in todo : Ed(F, j).h # Ed(F, i).t[k]
Up == /\ ph = "up"
      /\ \E i \in todo :
           /\ TailsDone(i)
           /\ ins' = [ins EXCEPT ![Ed(F, i).h + 1] = @ + W(Ed(F, i)) * ProdSeq([k \in 1..Len(Ed(F, i).t) |-> ins[Ed(F, i).t[k] + 1]])]
           /\ todo' = todo \ {i}
      /\ UNCHANGED <<F, outs, ph>>
Turn == ph = "up" /\ todo = {} /\ ph' = "down" /\ todo' = EdgeIds(F) /\ UNCHANGED <<F, ins, outs>>
\* an edge may be used once every edge above its head has been
HeadDone(i) == \A j \in todo : \A k \in 1..Len(Ed(F, j).t) : Ed(F, j).t[k] # Ed(F, i).h
Contribution(i, k) == outs[Ed(F, i).h + 1] * W(Ed(F, i))
                      * ProdSeq([m \in 1..Len(Ed(F, i).t) |-> IF m = k THEN 1 ELSE ins[Ed(F, i).t[m] + 1]])
Down == /\ ph = "down"
        /\ \E i \in todo :
             /\ HeadDone(i)
             /\ outs' = [v \in 1..F.n |-> outs[v] + SumSeq([k \in 1..Len(Ed(F, i).t) |-> IF Ed(F, i).t[k] + 1 = v THEN Contribution(i, k) ELSE 0])]
             /\ todo' = todo \ {i}
        /\ UNCHANGED <<F, ins, ph>>
IONext == Up \/ Turn \/ Down
Finished == ph = "down" /\ todo = {}
OccN(v, t) == SumOver(InE(F, v), LAMBDA i : Occ(i, t))
P == [i \in 1..Len(F.E) |-> F.E[i].p]
InsideIsSum == ph = "down" => LET T == DerivTable(F) IN \A v \in 1..F.n : ins[v] = SumOver(T[v], LAMBDA d : TreeProd(P, d.t))
OutsideIsContext == Finished => LET D == Derivations(F) IN
   \A v \in 1..F.n : ins[v] * outs[v] = SumOver(D, LAMBDA d : OccN(v - 1, d.t) * TreeProd(P, d.t))
PosteriorIsSum == Finished => LET D == Derivations(F) IN
   \A i \in EdgeIds(F) : outs[Ed(F, i).h + 1] * W(Ed(F, i)) * ProdSeq([m \in 1..Len(Ed(F, i).t) |-> ins[Ed(F, i).t[m] + 1]])
                          = SumOver(D, LAMBDA d : Occ(i, d.t) * TreeProd(P, d.t))
=============================================================================
