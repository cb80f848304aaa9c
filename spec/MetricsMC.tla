------------------------------ MODULE MetricsMC ------------------------------
(* The counting machine: the hypothesis is scanned once from left to right,  *)
(* every n-gram starting at the current word uses up one of the reference    *)
(* occurrences that are left.  Started with the statistics of other          *)
(* hypotheses already counted, it must end with the declared statistics; and *)
(* sums do not depend on the order of adding and removing sentences.         *)
EXTENDS Metrics, TLC
CONSTANTS A, MaxH, MaxR, N, NH
VARIABLES refs, todo, h, pos, used, mt, tt, done, acc
vars == <<refs, todo, h, pos, used, mt, tt, done, acc>>
Strs(m) == UNION {[1..n -> A] : n \in 0..m}
AllGrams == UNION {[1..n -> A] : n \in 1..N}
Zero == [i \in 1..N |-> 0]
Init == /\ refs \in {<<r>> : r \in Strs(MaxR)} \cup {<<r, q>> : r \in Strs(MaxR), q \in Strs(MaxR - 1)}
        /\ todo \in [1..NH -> Strs(MaxH)]
        /\ h = todo[1] /\ pos = 1 /\ used = [g \in AllGrams |-> 0] /\ mt = Zero /\ tt = Zero /\ done = 0 /\ acc = <<>>
Avail(g) == LET V == {Occurs(refs[k], g) : k \in 1..Len(refs)} IN CHOOSE x \in V : \A y \in V : y <= x
Scan == /\ done < NH /\ pos <= Len(h)
        /\ LET top == IF Len(h) - pos + 1 < N THEN Len(h) - pos + 1 ELSE N
               g(n) == SubSeq(h, pos, pos + n - 1)
               hit(n) == n <= top /\ used[g(n)] < Avail(g(n))
           IN /\ mt' = [n \in 1..N |-> mt[n] + (IF hit(n) THEN 1 ELSE 0)]
              /\ tt' = [n \in 1..N |-> tt[n] + (IF n <= top THEN 1 ELSE 0)]
              /\ used' = [x \in AllGrams |-> IF \E n \in 1..N : hit(n) /\ g(n) = x THEN used[x] + 1 ELSE used[x]]
        /\ pos' = pos + 1 /\ UNCHANGED <<refs, todo, h, done, acc>>
\* the next hypothesis against the same references starts with fresh counters
Finish == /\ done < NH /\ pos > Len(h)
          /\ acc' = Append(acc, mt \o tt)
          /\ done' = done + 1 /\ h' = (IF done + 2 <= NH THEN todo[done + 2] ELSE <<>>) /\ pos' = 1
          /\ used' = [g \in AllGrams |-> 0] /\ mt' = Zero /\ tt' = Zero /\ UNCHANGED <<refs, todo>>
Next == Scan \/ Finish
Counted == \A k \in 1..Len(acc) : \A n \in 1..N :
   acc[k][n] = Clipped(refs, todo[k], n) /\ acc[k][N + n] = Total(todo[k], n)
Sane == \A n \in 1..N : mt[n] <= tt[n]
Commutes == Len(acc) = 2 => SumOf(acc) = SumOf(<<acc[2], acc[1]>>) /\ MinusSeq(SumOf(acc), acc[1]) = acc[2]
=============================================================================
