------------------------------ MODULE LMEstMC ------------------------------
(* Design level: the estimated model is closed and its probabilities sum to  *)
(* one for every history, whatever is pruned; and the single pass over the   *)
(* sorted n-grams computes the adjusted counts and marks what to prune.      *)
EXTENDS LMEst, TLC
CONSTANTS N, Words, MaxS, MaxW, Prune, Seeds, Variant
VARIABLES C, prune, E, i, cur, lv, lc, out, pc
vars == <<C, prune, E, i, cur, lv, lc, out, pc>>
Sents == UNION {[1..k -> 3..(2 + Words)] : k \in 0..MaxW}
Small == UNION {[1..k -> Sents] : k \in 1..MaxS}
RECURSIVE Rand(_, _)
Rand(sd, k) == IF k = 0 THEN (sd * 7919 + 13) % 30011 ELSE (Rand(sd, k - 1) * 211 + 7 * k + (sd % 89) + 5) % 30011
Pick(sd) == [s \in 1..(2 + (Rand(sd, 1) % 5)) |-> [w \in 1..(Rand(sd, 2 * s) % 6) |-> 3 + ((Rand(sd, 40 * s + 3 * w) \div 7) % Words)]]
Corpora == IF Seeds = 0 THEN Small ELSE {Pick(sd) : sd \in 1..Seeds}
Rising == {p \in [1..N -> 0..Prune] : p[1] = 0 /\ \A k \in 1..(N - 1) : p[k] <= p[k + 1]}
Fall == <<One \div 2, One, (One * 3) \div 2>>
Est(c, p) == EstimateV(c, N, p, TRUE, 0, Fall, Variant)
Less(a, b) == \E k \in 1..N : a[k] < b[k] /\ \A j \in (k + 1)..N : a[j] = b[j]
\* all windows of N words, with as many <s> as it takes
Full(c) == LET P == [s \in 1..Len(c) |-> [k \in 1..(N - 1) |-> 1] \o c[s] \o <<2>>]
               W == FoldLeft(LAMBDA a, s : a \o [j \in 1..(Len(s) - N + 1) |-> SubSeq(s, j, j + N - 1)], <<>>, P)
               f == CountsOf(W)
           IN LET S == SetToSortSeq(DOMAIN f, Less) IN [k \in 1..Len(S) |-> [g |-> S[k], c |-> f[S[k]]]]
VARIABLE L
Init == /\ C \in Corpora /\ prune \in Rising /\ pc = "chosen" /\ E = <<>> /\ L = <<>>
        /\ i = 1 /\ lv = 1 /\ lc = [k \in 1..N |-> 0]
        /\ cur = [k \in 1..(N - 1) |-> [g |-> IF k = 1 THEN <<1>> ELSE <<>>, n |-> 0]]
        /\ out = [k \in 1..N |-> IF k = 1 THEN {[g |-> <<0>>, n |-> 0, m |-> FALSE]} ELSE {}]
Load == pc = "chosen" /\ pc' = "scan" /\ E' = Est(C, prune) /\ L' = Full(C) /\ UNCHANGED <<C, prune, i, cur, lv, lc, out>>
Common(a, b) == LET k == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                    T == {j \in 0..k : \A x \in 0..(j - 1) : a[Len(a) - x] = b[Len(b) - x]} IN CHOOSE j \in T : \A y \in T : y <= j
Sfx(g, k) == SubSeq(g, Len(g) - k + 1, Len(g))
Mark(k, real) == k > 1 /\ prune[k] > 0 /\ real <= prune[k]
Item(k, c, final) == [g |-> c[k].g, n |-> c[k].n, m |-> IF final /\ Variant = "lateprune" THEN c[k].n <= prune[k] ELSE Mark(k, lc[k])]
Step ==
   /\ pc = "scan" /\ i <= Len(L)
   /\ LET f == L[i].g  same == Common(f, cur[lv].g)
          c1 == [k \in 1..(N - 1) |-> IF k = same THEN [cur[k] EXCEPT !.n = @ + 1] ELSE cur[k]]
          o1 == [k \in 1..N |-> IF k < N /\ k > same /\ k <= lv THEN out[k] \cup {Item(k, c1, FALSE)} ELSE out[k]]
          \* suffixes up to the last <s>
          B == {k \in 1..N : f[N - k + 1] = 1}
          top == IF B = {} THEN N ELSE CHOOSE k \in B : \A y \in B : k <= y
          c2 == [k \in 1..(N - 1) |-> IF k > same /\ k <= top THEN [g |-> Sfx(f, k), n |-> IF k = top THEN L[i].c ELSE 1] ELSE c1[k]]
      IN /\ cur' = c2 /\ lv' = IF top = N THEN N - 1 ELSE top
         /\ out' = IF top = N THEN [o1 EXCEPT ![N] = @ \cup {[g |-> f, n |-> L[i].c, m |-> Mark(N, L[i].c)]}] ELSE o1
         /\ lc' = [k \in 1..N |-> (IF k > same THEN 0 ELSE lc[k]) + L[i].c]
   /\ i' = i + 1 /\ UNCHANGED <<C, prune, E, pc, L>>
Finish == /\ pc = "scan" /\ i > Len(L) /\ pc' = "done"
          /\ out' = [k \in 1..N |-> IF k <= lv /\ k < N THEN out[k] \cup {Item(k, cur, TRUE)} ELSE out[k]]
          /\ UNCHANGED <<C, prune, E, i, cur, lv, lc, L>>
Next == Load \/ Step \/ Finish
Spec == Init /\ [][Next]_<<vars, L>>
\* only looked at in the initial state: they do not depend on the pass
Sums == pc # "scan" \/ i > 1 \/ SumsToOne(E.P, E.B, N, E.size, 400)
IsClosed == pc # "scan" \/ i > 1 \/ Closed(E.P, N)
Pass == pc # "done" \/ \A k \in 1..N :
   /\ {x.g : x \in out[k]} = DOMAIN E.adj[k] /\ Cardinality(out[k]) = Cardinality(DOMAIN E.adj[k])
   /\ \A x \in out[k] : x.n = E.adj[k][x.g] /\ (x.m = (x.g \notin E.keep[k]))
=============================================================================
