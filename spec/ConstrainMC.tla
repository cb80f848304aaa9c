----------------------------- MODULE ConstrainMC -----------------------------
(* Constraining as reparsing: the edges of a translation forest, read on their  *)
(* target side, form a grammar whose chart over the reference (SCFG.tla) has    *)
(* exactly the derivations of the forest that yield a path of the reference.    *)
EXTENDS Constrain, TLC
VARIABLES f, ref, st
A(w, d) == [w |-> w, f |-> <<>>, d |-> d]
Refs == {<<<<A("x", 1)>>>>, <<<<A("x", 1)>>, <<A("y", 1)>>>>, <<<<A("y", 1)>>, <<A("x", 1)>>>>,
         <<<<A("x", 1), A("y", 2)>>, <<A("y", 1)>>>>, <<<<A("x", 1)>>, <<A("x", 1)>>, <<A("y", 1)>>>>,
         <<<<A("y", 1), A("x", 2)>>, <<A("x", 1)>>, <<A("y", 1), A("x", 1)>>>>}
Ed(h, t, e) == [h |-> h, t |-> t, e |-> e, lhs |-> "c", f |-> <<h, t>>, fs |-> <<>>, i |-> 0, j |-> 0]
Leaf == {<<"x">>, <<"y">>, <<"x", "y">>}
One == {<<"[1]">>, <<"[1]", "x">>, <<"y", "[1]">>}
Two == {<<"[1]", "[2]">>, <<"[2]", "[1]">>, <<"[1]", "x", "[2]">>}
\* node 0 and 1 are leaves, node 2 is the goal
E0 == {Ed(0, <<>>, e) : e \in Leaf}
E1 == {Ed(1, <<>>, e) : e \in Leaf} \cup {Ed(1, <<0>>, e) : e \in One}
E2 == {Ed(2, <<1>>, e) : e \in One} \cup {Ed(2, <<0, 1>>, e) : e \in Two} \cup {Ed(2, <<1, 0>>, <<"[1]", "[2]">>)} \cup {Ed(2, <<0>>, <<"[1]">>)}
Sub(S, n) == {x \in SUBSET S : Cardinality(x) \in 1..n}
Mk(a, b, c) == LET es == SetToSeq(a) \o SetToSeq(b) \o SetToSeq(c) IN
  [n |-> 3, E |-> es, in |-> [v \in 1..3 |-> SetToSortSeq({k \in 1..Len(es) : es[k].h = v - 1}, <)]]
Init == /\ \E a \in Sub(E0, 1), b \in Sub(E1, 2), c \in Sub(E2, 2) : f = Mk(a, b, c)
        /\ ref \in Refs /\ st = 0
Next == st = 0 /\ st' = 1 /\ UNCHANGED <<f, ref>>
Spec == Init /\ [][Next]_<<f, ref, st>>
Nm == <<"n1", "n2", "n3">>
G == <<[kind |-> "text", max |-> N(ref) + 1, rules |->
        [k \in 1..Len(f.E) |-> [l |-> Nm[f.E[k].h + 1], e |-> <<>>, fs |-> <<>>,
           f |-> [q \in 1..Len(f.E[k].e) |-> IF IsVar(f.E[k].e[q]) THEN <<1, Nm[f.E[k].t[VarNo(f.E[k].e[q])] + 1]>> ELSE <<0, f.E[k].e[q]>>]]]]>>
\* number of derivations of the parse
RECURSIVE Cnt(_, _)
Cnt(edges, it) == FoldSet(LAMBDA u, s : s + FoldLeft(LAMBDA p, t : p * Cnt(edges, t), 1, u.t), 0, {x \in edges : x.h = it})
Same == st = 1 =>
  LET es == LicensedForest(ref, G, "n3")
      want == Constrained(f, ref) IN
  /\ (es = {}) = (want = {})
  /\ want # {} => Cnt(es, <<"n3", 0, N(ref)>>) = Cardinality(want)
=============================================================================
