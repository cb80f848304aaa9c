------------------------------ MODULE KBestMC ------------------------------
EXTENDS KBest, TLC
CONSTANTS MaxW, Deep
W(e) == e.f[1]
Leaf == {[h |-> 0, t |-> <<>>, e |-> <<1>>, f |-> <<w>>] : w \in 0..MaxW}
Mid  == {[h |-> 1, t |-> tt, e |-> <<1>>, f |-> <<w>>] : w \in 0..1, tt \in {<<0>>, <<0, 0>>}}
Top  == {[h |-> 2, t |-> tt, e |-> <<1>>, f |-> <<w>>] : w \in 0..1, tt \in {<<1>>, <<0, 1>>, <<1, 1>>}}
Forests ==
  CASE Deep = 0 -> {[n |-> 2, E |-> <<a, b, c>>] : a \in Leaf, b \in Leaf, c \in Mid}
                   \cup {[n |-> 3, E |-> <<a, c, d>>] : a \in {x \in Leaf : x.f[1] = 0}, c \in Mid, d \in Top}
    [] Deep = 1 -> {[n |-> 2, E |-> <<a, b, c, d>>] : a \in Leaf, b \in Leaf, c \in Mid, d \in Mid}
    [] OTHER    -> {[n |-> 3, E |-> <<a, b, c, d>>] : a \in Leaf, b \in Leaf, c \in Mid, d \in {[h |-> 2, t |-> tt, e |-> <<1>>, f |-> <<0>>] : tt \in {<<1>>, <<0, 1>>}}}
MCInit == \E G \in Forests : KInit(G)
MCSpec == MCInit /\ [][KNext]_kvars /\ WF_kvars(KNext)
Complete == <>(\A v \in Nodes : cand[v] = {})
=============================================================================
