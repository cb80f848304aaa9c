---------------------------- MODULE ExtSort ----------------------------
(* What a disk-backed sort must return: records <<key, payload>>.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
SortedByKey(s) == \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1]
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) : Times(a, x) = Times(b, x)
Keys(s) == {s[i][1] : i \in 1..Len(s)}
SumOf(s, k) == FoldLeft(LAMBDA acc, x : IF x[1] = k THEN acc + x[2] ELSE acc, 0, s)
SameSums(a, b) == Keys(a) = Keys(b) /\ \A k \in Keys(a) : SumOf(a, k) = SumOf(b, k)
Distinct(s) == \A i \in 1..(Len(s) - 1) : s[i][1] < s[i + 1][1]
\* data split over `pieces` non-empty blocks; equal keys are merged when pieces meet
SortOk(in, out, combine, pieces) ==
   /\ SortedByKey(out)
   /\ IF ~combine THEN SameBag(in, out)
      ELSE SameSums(in, out) /\ (pieces > 1 => Distinct(out))
=============================================================================
