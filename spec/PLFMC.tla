------------------------------- MODULE PLFMC -------------------------------
(* Reading back what was written gives the lattice, for every small lattice. *)
EXTENDS PLF, TLC
VARIABLE L
Chars == {97, QUOTE, SLASH, COMMA, RP, SP}
Words == {<<a>> : a \in Chars} \cup {<<a, b>> : a, b \in Chars}
FSets == {{}, {<<<<97>>, -1500>>}, {<<<<97>>, 250>>, <<DenseName(0), 12000>>}, {<<<<QUOTE, SLASH>>, 1>>}}
Arcs(d) == [w : Words, f : FSets, d : 1..d]
Nodes(d) == {<<a>> : a \in Arcs(d)}
Init == L \in {<<a>> : a \in Nodes(1)}
Next == /\ Len(L) < 2
        /\ \/ \E a \in [w : {<<97>>, <<SLASH>>, <<QUOTE, COMMA>>}, f : FSets, d : {1}] : L' = Append(L, <<a>>)
           \/ \E a \in [w : {<<RP>>, <<COMMA, SLASH>>}, f : FSets, d : {1}] : L' = <<Append(L[1], a)>>
              /\ Len(L[1]) < 3
Spec == Init /\ [][Next]_L
Ord(fs) == SetToSeq(fs)
RoundTrip == LET r == Parse(Write(L, Ord)) IN r.ok /\ r.v = L
=============================================================================
