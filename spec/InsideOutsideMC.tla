-------------------------- MODULE InsideOutsideMC --------------------------
EXTENDS InsideOutside, TLC
CONSTANTS Deep
Edge(h, t, p) == [h |-> h, t |-> t, e |-> <<1>>, f |-> <<0>>, p |-> p]
L0 == {Edge(0, <<>>, p) : p \in 1..2}
L1 == {Edge(1, t, p) : t \in {<<>>, <<0>>, <<0, 0>>}, p \in {1, 3}}
L2 == {Edge(2, t, p) : t \in {<<1>>, <<0, 1>>, <<1, 1>>, <<1, 0, 1>>, <<0>>}, p \in {1, 2}}
Forests == {[n |-> 3, E |-> <<a, b, c>>] : a \in L0, b \in L1, c \in L2}
           \cup {[n |-> 3, E |-> <<a, b, c, d>>] : a \in L0, b \in L1, c \in L2, d \in (IF Deep THEN L2 \cup L1 ELSE {Edge(2, <<1, 1>>, 2), Edge(1, <<0, 0>>, 2)})}
           \cup (IF Deep THEN {[n |-> 3, E |-> <<a, b, c, d, e>>] : a \in L0, b \in L1, c \in L2, d \in L1, e \in L2} ELSE {})
MCSpec == (\E G \in Forests : IOInit(G)) /\ [][IONext]_iovars
=============================================================================
