---------------------------- MODULE SparseVecGen -----------------------------
(* Enumerates histories: every pair of starting sizes around the inline limit,  *)
(* then every sequence of Depth operations from a small alphabet.               *)
EXTENDS SparseVec, TLC, Json
CONSTANTS Depth, Kind, Full   \* Full: all operands; otherwise the target is the first vector
VARIABLES hist, S, k
vars == <<hist, S, k>>
Sizes == IF Kind = "sparse" THEN {0, 1, 6, 7, 8, 9} ELSE {0, 1, 2, 3, 4, 5}
Load(x, n) == IF Kind = "sparse" THEN [i \in 1..n |-> [o |-> "set", x |-> x, k |-> i + 3 * x, v |-> 64 * i * x]]
              ELSE [i \in 1..n |-> [o |-> "push", x |-> x, v |-> 10 * x + i]]
\* n keys on the heap, whatever n is
Shrunk(x, n) == Load(x, 9) \o [i \in 1..(9 - n) |-> [o |-> "erase", x |-> x, k |-> n + i + 3 * x]]
Starts == {Load(1, a) \o Load(2, b) : a, b \in Sizes} \cup (IF Kind = "sparse" THEN {Shrunk(1, a) \o Load(2, b) : a \in {0, 1, 6}, b \in {0, 7, 8}} ELSE {})
Step(T, o) == IF Kind = "sparse" THEN MapStep(T, o) ELSE SeqStep(T, o)
Init == /\ hist \in Starts /\ k = 0
        /\ S = FoldLeft(Step, IF Kind = "sparse" THEN <<Nothing, Nothing, Nothing>> ELSE <<<<>>, <<>>, <<>>>>, hist)
Xs == IF Full THEN 1..2 ELSE {1}
SparseOps == UNION {{[o |-> "set", x |-> x, k |-> q, v |-> 128] : q \in {4, 7, 30}} \cup {[o |-> "add", x |-> x, k |-> q, v |-> 64] : q \in {4, 30}}
   \cup {[o |-> "erase", x |-> x, k |-> q] : q \in {4, 6, 8, 30}} \cup {[o |-> "touch", x |-> x, k |-> 31], [o |-> "clear", x |-> x], [o |-> "muleq", x |-> x, s |-> 2], [o |-> "itscale", x |-> x], [o |-> "nsq", x |-> x]}
   \cup {[o |-> n, x |-> x, y |-> y] : n \in {"asg", "copy", "pluseq", "pluseqf", "minuseq", "swap", "erasez", "eq", "dot", "ser", "b64"}, y \in 1..2}
   \cup {[o |-> n, x |-> x, y |-> 1, z |-> 2] : n \in {"plus", "minus"}} \cup {[o |-> "axpy", x |-> x, y |-> 3 - x, s |-> 3], [o |-> "times", x |-> x, y |-> 3 - x, s |-> 2]} : x \in Xs}
SmallOps == UNION {LET n == Len(S[x]) IN {[o |-> "push", x |-> x, v |-> 7], [o |-> "clear", x |-> x], [o |-> "compact0", x |-> x]}
   \cup (IF n > 0 THEN {[o |-> "pop", x |-> x], [o |-> "pushb", x |-> x], [o |-> "pushi", x |-> x, i |-> 0], [o |-> "putb", x |-> x, v |-> 8], [o |-> "putf", x |-> x, v |-> 9]} ELSE {})
   \cup {[o |-> "erase", x |-> x, i |-> i] : i \in {0, n - 1} \cap (0..(n - 1))} \cup {[o |-> "erase2", x |-> x, i |-> i, j |-> n] : i \in {0, 1} \cap (0..n)} \cup {[o |-> "erase2", x |-> x, i |-> 0, j |-> 2] : i \in {j \in {0} : n >= 2}}
   \cup {[o |-> "resizev", x |-> x, n |-> s, v |-> 6] : s \in {0, 1, 2, 3, 5}} \cup {[o |-> "compact", x |-> x, n |-> s] : s \in {0, 1, 2, 3} \cap (0..n)}
   \cup {[o |-> m, x |-> x, y |-> y] : m \in {"asg", "copy", "swap", "swap2", "eq", "hash", "ser"}, y \in 1..2} : x \in Xs}
Next == /\ k < Depth
        /\ \E o \in (IF Kind = "sparse" THEN SparseOps ELSE SmallOps) :
             /\ hist' = Append(hist, o) /\ S' = Step(S, o) /\ k' = k + 1
             /\ (k' = Depth => PrintT("@@" \o ToJson(hist')))
Spec == Init /\ [][Next]_vars
=============================================================================
