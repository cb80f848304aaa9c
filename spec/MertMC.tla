------------------------------- MODULE MertMC -------------------------------
(* Checks the envelope construction against the definition of the upper      *)
(* envelope, and the line search against its specification.                   *)
EXTENDS Mert, SequencesExt, FiniteSetsExt, TLC
CONSTANTS Mode, Ms, Bs, MaxA, Gaps, Eps, Scores, NB, Keep
VARIABLES A, B, X, S
vars == <<A, B, X, S>>
Lines == [m : Ms, b : Bs]
NonDecr(s) == \A i \in 1..(Len(s) - 1) : s[i].m <= s[i + 1].m
Init == /\ A = <<>> /\ B = <<>> /\ X = <<>> /\ S = <<>>
AddA == Mode = "env" /\ Len(A) < MaxA /\ B = <<>> /\ \E l \in {q \in Lines : IF A = <<>> THEN TRUE ELSE A[Len(A)].m <= q.m} : A' = Append(A, l) /\ UNCHANGED <<B, X, S>>
AddB == Mode = "env" /\ A # <<>> /\ Len(B) < MaxA /\ \E l \in {q \in Lines : IF B = <<>> THEN TRUE ELSE B[Len(B)].m <= q.m} : B' = Append(B, l) /\ UNCHANGED <<A, X, S>>
AddX == Mode = "search" /\ S = <<>> /\ Len(X) < NB /\ \E g \in Gaps : X' = Append(X, IF X = <<>> THEN 0 ELSE X[Len(X)] + g) /\ UNCHANGED <<A, B, S>>
AddS == Mode = "search" /\ Len(S) < Len(X) + 1 /\ \E s \in Scores : S' = Append(S, s) /\ UNCHANGED <<A, B, X>>
Next == AddA \/ AddB \/ AddX \/ AddS
Set(s) == {s[i] : i \in 1..Len(s)}
EnvRight == A # <<>> => LET e == Sweep(A) IN Set(e) = Upper(Set(A)) /\ Len(e) = Cardinality(Set(e))
              /\ \A i \in 1..(Len(e) - 1) : e[i].m < e[i + 1].m
ProductRight == (A # <<>> /\ B # <<>>) =>
   LET p == Walk(Sweep(A), Sweep(B)) IN
   Set(p) = Upper({[m |-> a.m + b.m, b |-> a.b + b.b] : a \in Set(A), b \in Set(B)}) /\ Len(p) = Cardinality(Set(p))
SearchRight == (Mode = "search" /\ X # <<>> /\ Len(S) = Len(X) + 1) =>
   LET r == Search(X, S, Eps, Keep) IN SearchSound(X, S, r) /\ SearchBest(X, S, Eps, r)
=============================================================================
