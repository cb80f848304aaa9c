------------------------------ MODULE PruneMC ------------------------------
EXTENDS Prune, TLC
CONSTANTS Deep
Edge(h, t, w) == [h |-> h, t |-> t, e |-> <<1>>, f |-> <<w>>]
L0 == {Edge(0, <<>>, w) : w \in {0, 1}}
L1 == {Edge(1, t, w) : t \in {<<>>, <<0>>, <<0, 0>>}, w \in {-1, 0}}
L2 == {Edge(2, t, w) : t \in {<<1>>, <<0, 1>>, <<1, 1>>, <<0>>}, w \in {0, 2}}
Forests == {[n |-> 3, E |-> <<a, x, b, c1, d>>] : a \in L0, x \in {Edge(0, <<>>, -2)}, b \in L1, c1 \in L2, d \in {Edge(2, <<1, 1>>, 1), Edge(2, <<0>>, 1)}}
           \cup (IF Deep THEN {[n |-> 3, E |-> <<a, x, b, c1, d, y>>] : a \in L0, x \in {Edge(0, <<>>, -2)}, b \in L1, c1 \in L2, d \in L2, y \in L1} ELSE {})
MCSpec == (\E G \in Forests : PInit(G)) /\ [][PNext]_pvars
=============================================================================
