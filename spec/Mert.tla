-------------------------------- MODULE Mert --------------------------------
(* Line search of minimum error-rate training.                              *)
(* A derivation's model score along origin + x * direction is a line         *)
(* [m |-> slope, b |-> intercept].  The upper envelope of all lines tells     *)
(* the best derivation at every x; the line search walks over the merged     *)
(* breakpoints of a corpus.                                                   *)
EXTENDS Integers, Sequences, FiniteSets

\* ---- the upper envelope, by definition: lines that nothing dominates everywhere
Redundant(l, S) ==
   \/ \E k \in S : k.m = l.m /\ k.b > l.b
   \/ \E p, q \in S : /\ p.m < l.m /\ l.m < q.m
                      /\ l.b * (q.m - p.m) <= p.b * (q.m - l.m) + q.b * (l.m - p.m)
Upper(S) == {l \in S : ~Redundant(l, S)}

\* x of the intersection of two lines with k.m < l.m, as a fraction <<num, den>> with den > 0
Cross(k, l) == <<k.b - l.b, l.m - k.m>>
LessQ(p, q) == p[1] * q[2] < q[1] * p[2]
SameQ(p, q) == p[1] * q[2] = q[1] * p[2]

\* ---- the envelope by a sweep over the lines in order of slope
RECURSIVE Drop(_, _)
\* lines at the end of the envelope that l overtakes before they become best
Drop(env, l) ==
   IF Len(env) < 2 THEN env
   ELSE IF LessQ(Cross(env[Len(env) - 1], env[Len(env)]), Cross(env[Len(env)], l)) THEN env
   ELSE Drop(SubSeq(env, 1, Len(env) - 1), l)
Add(env, l) ==
   IF env # <<>> /\ env[Len(env)].m = l.m
     THEN IF l.b <= env[Len(env)].b THEN env ELSE Append(Drop(SubSeq(env, 1, Len(env) - 1), l), l)
   ELSE Append(Drop(env, l), l)
RECURSIVE SweepFrom(_, _, _)
SweepFrom(ls, i, env) == IF i > Len(ls) THEN env ELSE SweepFrom(ls, i + 1, Add(env, ls[i]))
\* ls: lines sorted by slope, ties in any order
Sweep(ls) == SweepFrom(ls, 1, <<>>)

\* ---- product: walk over two envelopes at once, advancing the one that changes first
RECURSIVE WalkFrom(_, _, _, _, _)
WalkFrom(A, B, i, j, acc) ==
   LET here == Append(acc, [m |-> A[i].m + B[j].m, b |-> A[i].b + B[j].b])
       moreA == i < Len(A)  moreB == j < Len(B)
       xa == Cross(A[i], A[i + 1])  xb == Cross(B[j], B[j + 1])
   IN IF ~moreA /\ ~moreB THEN here
      ELSE IF moreA /\ (~moreB \/ LessQ(xa, xb)) THEN WalkFrom(A, B, i + 1, j, here)
      ELSE IF moreB /\ (~moreA \/ LessQ(xb, xa)) THEN WalkFrom(A, B, i, j + 1, here)
      ELSE WalkFrom(A, B, i + 1, j + 1, here)
Walk(A, B) == IF A = <<>> \/ B = <<>> THEN <<>> ELSE WalkFrom(A, B, 1, 1, <<>>)

\* ---- line search over boundaries X[1] <= .. <= X[n] (integers; doubled positions are returned)
\* and the scores of the n + 1 intervals; a boundary list is walked from left to right, narrow
\* intervals (not wider than eps) are passed over.
\* keep: whether the left end of a passed-over interval stays the reference point
RECURSIVE SearchFrom(_, _, _, _, _, _, _)
SearchFrom(X, S, eps, keep, i, last, best) ==     \* last: 0 = minus infinity, else index of a boundary
   IF i > Len(X)
     THEN IF S[i] > best.score THEN [score |-> S[i], pos2 |-> IF last = 0 THEN 0 ELSE 2 * (X[last] + 1000)] ELSE best
   ELSE LET wide == last = 0 \/ X[i] - X[last] > eps
            b2 == IF wide /\ S[i] > best.score
                    THEN [score |-> S[i], pos2 |-> IF last = 0 THEN 2 * X[i] - 1 ELSE X[i] + X[last]]
                    ELSE best
        IN SearchFrom(X, S, eps, keep, i + 1, IF wide \/ ~keep THEN i ELSE last, b2)
Search(X, S, eps, keep) == SearchFrom(X, S, eps, keep, 1, 0, [score |-> -1000000, pos2 |-> 0])
\* score at a doubled position that is no boundary
At(X, S, p2) == S[1 + Cardinality({i \in 1..Len(X) : 2 * X[i] < p2})]
SearchSound(X, S, r) == r.score = At(X, S, r.pos2) /\ \A i \in 1..Len(X) : 2 * X[i] # r.pos2
SearchBest(X, S, eps, r) ==
   \A i \in 1..Len(S) : (i = 1 \/ i = Len(S) \/ X[i] - X[i - 1] > eps) => r.score >= S[i]
=============================================================================
