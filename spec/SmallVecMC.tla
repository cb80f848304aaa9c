----------------------------- MODULE SmallVecMC ------------------------------
(* The representation: up to Inl items inline, more in a heap block of at least *)
(* that capacity; the inline cells and the block share their storage.           *)
EXTENDS SparseVec, TLC
CONSTANTS Inl, Cap, Vals
VARIABLES rep, abs
vars == <<rep, abs>>
Junk == -9
\* d: the cells in use (inline: Inl cells; heap: the block)
Empty == [n |-> 0, d |-> Fill(Inl, Junk)]
IsHeap(r) == r.n > Inl
Read(r) == SubSeq(r.d, 1, r.n)
ToHeap(r, cap) == [r EXCEPT !.d = SubSeq(r.d, 1, Inl) \o Fill(cap - Inl, Junk)]
ToInline(r, n) == [n |-> n, d |-> SubSeq(r.d, 1, n) \o Fill(Inl - n, Junk)]
Grown(r, cap) == [r EXCEPT !.d = r.d \o Fill(cap - Len(r.d), Junk)]
Push(r, v) == LET q == IF r.n < Inl THEN r ELSE IF r.n = Inl THEN ToHeap(r, 2 * Inl) ELSE IF r.n = Len(r.d) THEN Grown(r, 2 * Len(r.d)) ELSE r IN
              [n |-> r.n + 1, d |-> [q.d EXCEPT ![r.n + 1] = v]]
Pop(r) == IF r.n - 1 = Inl THEN ToInline(r, Inl) ELSE [r EXCEPT !.n = r.n - 1]
Resize(r, s, v) ==
  IF s <= Inl THEN IF IsHeap(r) THEN ToInline(r, s)
                   ELSE [n |-> s, d |-> [i \in 1..Inl |-> IF i > r.n /\ i <= s THEN v ELSE r.d[i]]]
  ELSE LET a == IF IsHeap(r) THEN r ELSE ToHeap(r, 2 * Inl)
           b == IF s > Len(a.d) THEN Grown(a, IF s > 2 * Len(a.d) THEN s ELSE 2 * Len(a.d)) ELSE a IN
       [n |-> s, d |-> [i \in 1..Len(b.d) |-> IF i > r.n /\ i <= s THEN v ELSE b.d[i]]]
EraseAt(r, i) == Resize([r EXCEPT !.d = [q \in 1..Len(r.d) |-> IF q >= i /\ q < r.n THEN r.d[q + 1] ELSE r.d[q]]], r.n - 1, 0)
Assign(r, s) == IF ~IsHeap(s) THEN ToInline(s, s.n)
                ELSE IF IsHeap(r) /\ Len(r.d) >= s.n THEN [n |-> s.n, d |-> [i \in 1..Len(r.d) |-> IF i <= s.n THEN s.d[i] ELSE r.d[i]]]
                ELSE [n |-> s.n, d |-> SubSeq(s.d, 1, s.n)]
Init == rep = [x \in 1..2 |-> Empty] /\ abs = [x \in 1..2 |-> <<>>]
Do(o, f) == abs' = SeqStep(abs, o) /\ rep' = f
Next == \E x, y \in 1..2 : LET n == Len(abs[x]) IN
   \/ \E v \in Vals : n < Cap /\ Do([o |-> "push", x |-> x, v |-> v], [rep EXCEPT ![x] = Push(rep[x], v)])
   \/ n > 0 /\ Do([o |-> "pop", x |-> x], [rep EXCEPT ![x] = Pop(rep[x])])
   \/ \E s \in 0..Cap : Do([o |-> "resize", x |-> x, n |-> s], [rep EXCEPT ![x] = Resize(rep[x], s, 0)])
   \/ \E i \in 0..(n - 1) : Do([o |-> "erase", x |-> x, i |-> i], [rep EXCEPT ![x] = EraseAt(rep[x], i + 1)])
   \/ \E i \in 0..(n - 1), v \in Vals : Do([o |-> "put", x |-> x, i |-> i, v |-> v], [rep EXCEPT ![x].d[i + 1] = v])
   \/ Do([o |-> "asg", x |-> x, y |-> y], [rep EXCEPT ![x] = Assign(rep[x], rep[y])])
   \/ Do([o |-> "swap", x |-> x, y |-> y], [rep EXCEPT ![x] = rep[y], ![y] = rep[x]])
Spec == Init /\ [][Next]_vars
Refines == \A x \in 1..2 : Read(rep[x]) = abs[x]
Shape == \A x \in 1..2 : IF IsHeap(rep[x]) THEN Len(rep[x].d) >= rep[x].n ELSE Len(rep[x].d) = Inl
=============================================================================
