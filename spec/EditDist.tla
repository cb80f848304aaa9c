------------------------------ MODULE EditDist ------------------------------
(* Edit distances: Levenshtein distance by its recurrence, the composition   *)
(* of minimal edit scripts, block moves, and what translation edit rate      *)
(* statistics may say about a hypothesis and its references.                 *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL MinE(A) == CHOOSE x \in A : \A y \in A : x <= y
AbsE(x) == IF x < 0 THEN -x ELSE x

\* rows of the distance table of a (columns) against b: row(j)[i + 1] = distance of a[1..i], b[1..j]
RECURSIVE RowFrom(_, _, _, _)
RowFrom(a, ch, prev, acc) ==
   LET i == Len(acc) IN
   IF i = Len(a) + 1 THEN acc
   ELSE RowFrom(a, ch, prev, Append(acc, MinE({acc[i] + 1, prev[i + 1] + 1, prev[i] + (IF a[i] = ch THEN 0 ELSE 1)})))
RECURSIVE Rows(_, _, _)
Rows(a, b, j) == IF j = 0 THEN [i \in 1..(Len(a) + 1) |-> i - 1]
                 ELSE LET p == Rows(a, b, j - 1) IN RowFrom(a, b[j], p, <<j>>)
Lev(a, b) == Rows(a, b, Len(b))[Len(a) + 1]

\* numbers of substitutions occurring in minimal edit scripts, as a table of <<distance, set>>
RECURSIVE SRowFrom(_, _, _, _)
SRowFrom(a, ch, prev, acc) ==
   LET i == Len(acc) IN
   IF i = Len(a) + 1 THEN acc
   ELSE LET eq == a[i] = ch
            up == acc[i]  lf == prev[i + 1]  dg == prev[i]
            m == MinE({up[1] + 1, lf[1] + 1, dg[1] + (IF eq THEN 0 ELSE 1)})
            S == (IF up[1] + 1 = m THEN up[2] ELSE {}) \cup (IF lf[1] + 1 = m THEN lf[2] ELSE {}) \cup
                 (IF eq THEN (IF dg[1] = m THEN dg[2] ELSE {}) ELSE (IF dg[1] + 1 = m THEN {x + 1 : x \in dg[2]} ELSE {}))
        IN SRowFrom(a, ch, prev, Append(acc, <<m, S>>))
RECURSIVE SRows(_, _, _)
SRows(a, b, j) == IF j = 0 THEN [i \in 1..(Len(a) + 1) |-> <<i - 1, {0}>>]
                  ELSE LET p == SRows(a, b, j - 1) IN SRowFrom(a, b[j], p, <<<<j, {0}>>>>)
\* a minimal script turning h into r has exactly these insertions (extra words of h),
\* deletions (missing words of r) and substitutions
MinimalScript(h, r, ins, del, sub) ==
   LET c == SRows(h, r, Len(r))[Len(h) + 1] IN
   /\ ins + del + sub = c[1] /\ sub \in c[2] /\ ins - del = Len(h) - Len(r)

\* ---- block moves: take s[i..j] out and put it back somewhere else
Moves(s) == UNION {UNION {
     LET blk == SubSeq(s, i, j)  rest == SubSeq(s, 1, i - 1) \o SubSeq(s, j + 1, Len(s)) IN
     {SubSeq(rest, 1, p) \o blk \o SubSeq(rest, p + 1, Len(rest)) : p \in 0..Len(rest)}
       : j \in i..Len(s)} : i \in 1..Len(s)}
RECURSIVE Reach(_, _)
Reach(A, k) == IF k = 0 THEN A ELSE Reach(UNION {Moves(s) : s \in A}, k - 1)
HelpfulMove(h, r) == \E m \in Moves(h) : Lev(m, r) < Lev(h, r)

\* ---- statistics
MinLev(refs, h) == MinE({Lev(h, refs[k]) : k \in 1..Len(refs)})
\* <<edits, length of the reference>> for the first of the closest references
WerOk(refs, h, st) ==
   LET m == MinLev(refs, h)
       k == MinE({q \in 1..Len(refs) : Lev(h, refs[q]) = m})
   IN st = <<1000 * m, 1000 * Len(refs[k])>>
\* the deprecated interface takes the reference with the lowest rate
OldWerOk(refs, h, st) ==
   \E k \in 1..Len(refs) :
     /\ st = <<1000 * Lev(h, refs[k]), 1000 * Len(refs[k])>>
     /\ \A q \in 1..Len(refs) : (Len(refs[q]) > 0 /\ Len(refs[k]) > 0) => Lev(h, refs[k]) * Len(refs[q]) <= Lev(h, refs[q]) * Len(refs[k])
RECURSIVE LenSumE(_, _)
LenSumE(refs, k) == IF k = 0 THEN 0 ELSE LenSumE(refs, k - 1) + Len(refs[k])
\* st = insertions, deletions, substitutions, shifts, reference length (all times 1000)
TerOk(refs, h, st, deep) ==
   LET i == st[1] \div 1000  d == st[2] \div 1000  s == st[3] \div 1000  m == st[4] \div 1000
       tot == i + d + s + m
   IN /\ Len(st) = 5 /\ \A x \in 1..5 : st[x] >= 0 /\ st[x] % 1000 = 0
      /\ st[5] = 1000 * (LenSumE(refs, Len(refs)) \div Len(refs))
      /\ tot <= MinLev(refs, h)
      /\ (tot = 0) <=> (\E k \in 1..Len(refs) : refs[k] = h)
      /\ deep =>
           /\ \E h2 \in Reach({h}, m) : \E k \in 1..Len(refs) : MinimalScript(h2, refs[k], i, d, s)
           /\ (\A k \in 1..Len(refs) : ~HelpfulMove(h, refs[k])) => (tot = MinLev(refs, h))
=============================================================================
