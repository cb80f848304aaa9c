------------------------------ MODULE InternGen ------------------------------
(* Enumerates every short history of two processes over one weight file.     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS A, B       \* operations of the first and of the second process
VARIABLES h, g
Init == h = <<>> /\ g = <<>>
Conv(n) == [o |-> "conv", d |-> "f", n |-> n]
Set(i, v) == [o |-> "set", w |-> 0, i |-> i, v |-> v]
Write(e) == [o |-> "write", w |-> 0, f |-> "a", hide |-> e]
Read == [o |-> "init", w |-> 0, f |-> "a"]
Freeze == [o |-> "freeze"]
Count == {i \in DOMAIN h : h[i].o = "conv"}
First == {Conv(1), Conv(2), Conv(3), Set(1, "1.5"), Set(2, "-0.1"), Set(1, "0"), Write(TRUE), Write(FALSE), Freeze}
Second == {Conv(1), Conv(3), Read, Freeze, Write(TRUE)}
Next == \/ Len(h) < A /\ g = <<>> /\ (\E o \in First : h' = Append(h, o)) /\ g' = g
        \/ Len(h) = A /\ (\E i \in DOMAIN h : h[i].o = "write") /\ Len(g) < B /\ (\E o \in Second : g' = Append(g, o)) /\ h' = h
           /\ (Len(g') = B => PrintT("@@" \o ToJson([procs |-> <<h, g>>])))
=============================================================================
