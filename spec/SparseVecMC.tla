----------------------------- MODULE SparseVecMC -----------------------------
(* The representation: a list of at most Inl pairs kept inline, or a map on the *)
(* heap once that is full (it stays there until cleared or assigned).  Whatever *)
(* the history, the representation stands for the map the operations define.    *)
EXTENDS SparseVec, TLC
CONSTANTS Keys, Inl, Bound
VARIABLES rep, abs
vars == <<rep, abs>>
Inline(l) == [h |-> FALSE, l |-> l, m |-> Nothing]
Heap(m) == [h |-> TRUE, l |-> <<>>, m |-> m]
Pos(r, k) == {i \in 1..Len(r.l) : r.l[i][1] = k}
Read(r) == IF r.h THEN r.m ELSE FromPairs(r.l)
\* get_or_create followed by writing f(old value)
Bin(r, k, f(_)) ==
  IF r.h THEN [r EXCEPT !.m = Put(r.m, k, f(Val(r.m, k)))]
  ELSE IF Pos(r, k) # {} THEN LET i == CHOOSE x \in Pos(r, k) : \A y \in Pos(r, k) : x <= y IN [r EXCEPT !.l[i] = <<k, f(r.l[i][2])>>]
  ELSE IF Len(r.l) < Inl THEN [r EXCEPT !.l = Append(r.l, <<k, f(0)>>)]
  ELSE Heap(Put(FromPairs(r.l), k, f(0)))
Erase(r, k) == IF r.h THEN [r EXCEPT !.m = Drop(r.m, {k})]
               ELSE IF Pos(r, k) = {} THEN r
               ELSE [r EXCEPT !.l = SelectSeq(r.l, LAMBDA p : p[1] # k)]
Items(r) == IF r.h THEN LET ks == SetToSeq(DOMAIN r.m) IN [i \in 1..Len(ks) |-> <<ks[i], r.m[ks[i]]>>] ELSE r.l
AddAll(r, s) == IF (IF r.h THEN DOMAIN r.m = {} ELSE r.l = <<>>) THEN s
                ELSE FoldLeft(LAMBDA a, p : Bin(a, p[1], LAMBDA v : v + p[2]), r, Items(s))
Init == rep = [x \in 1..2 |-> Inline(<<>>)] /\ abs = [x \in 1..2 |-> Nothing]
Do(o, f) == abs' = MapStep(abs, o) /\ rep' = f
Next == \E x, y \in 1..2 : \E k \in Keys :
   \/ \E v \in 0..1 : Do([o |-> "set", x |-> x, k |-> k, v |-> v], [rep EXCEPT ![x] = Bin(rep[x], k, LAMBDA u : v)])
   \/ Do([o |-> "add", x |-> x, k |-> k, v |-> 1], [rep EXCEPT ![x] = Bin(rep[x], k, LAMBDA u : u + 1)])
   \/ Do([o |-> "erase", x |-> x, k |-> k], [rep EXCEPT ![x] = Erase(rep[x], k)])
   \/ Do([o |-> "clear", x |-> x], [rep EXCEPT ![x] = Inline(<<>>)])
   \/ Do([o |-> "asg", x |-> x, y |-> y], [rep EXCEPT ![x] = rep[y]])
   \/ Do([o |-> "pluseq", x |-> x, y |-> y], [rep EXCEPT ![x] = AddAll(rep[x], rep[y])])
   \/ Do([o |-> "swap", x |-> x, y |-> y], [rep EXCEPT ![x] = rep[y], ![y] = rep[x]])
Spec == Init /\ [][Next]_vars
Small == \A x \in 1..2 : \A k \in DOMAIN abs[x] : abs[x][k] <= Bound
Refines == \A x \in 1..2 : Read(rep[x]) = abs[x]
Shape == \A x \in 1..2 : ~rep[x].h => Len(rep[x].l) <= Inl /\ Cardinality({p[1] : p \in Rng(rep[x].l)}) = Len(rep[x].l)
=============================================================================
