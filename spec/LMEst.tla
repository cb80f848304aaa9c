------------------------------- MODULE LMEst -------------------------------
(* Modified Kneser-Ney estimation, from the corpus alone.                    *)
(* Words: 0 <unk>, 1 <s>, 2 </s>, 3.. the words of the corpus.               *)
(* Probabilities are fixed point numbers, One standing for 1.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
One == 10000000
\* floor(a * One / b) for 0 <= a, 0 < b < 2 * 10^8
Div(a, b) == FoldLeft(LAMBDA x, i : LET t == x[2] * 10 IN <<x[1] * 10 + (t \div b), t % b>>, <<a \div b, a % b>>, <<1, 2, 3, 4, 5, 6, 7>>)[1]
\* x * y / One for 0 <= x, y <= 2 * One
Mul(x, y) == LET y0 == y % 100  y1 == (y \div 100) % 100  y2 == (y \div 10000) % 100  y3 == y \div 1000000 IN
   (((((x * y0) \div 100) + x * y1) \div 100 + x * y2) \div 100 + x * y3) \div 10
\* ---- counting
Padded(C) == [i \in 1..Len(C) |-> <<1>> \o C[i] \o <<2>>]
\* every n-gram occurrence of order k
Windows(C, k) == LET P == Padded(C)
                     One1(s) == IF Len(s) < k THEN <<>> ELSE [j \in 1..(Len(s) - k + 1) |-> SubSeq(s, j, j + k - 1)]
                 IN FoldLeft(LAMBDA acc, s : acc \o One1(s), <<>>, P)
CountsOf(W) == LET G == ToSet(W) IN [g \in G |-> Cardinality({i \in DOMAIN W : W[i] = g})]
\* Raw[k]: occurrences of each n-gram of order k;  Adj[k]: adjusted counts in a model of order N
RawAll(C, N) == TLCEval([k \in 1..N |-> CountsOf(Windows(C, k))])
AdjOf(R, N, k) ==
   LET Up == IF k < N THEN DOMAIN R[k + 1] ELSE {}
       Base == IF k = 1 THEN (DOMAIN R[1]) \cup {<<0>>, <<1>>} ELSE DOMAIN R[k]
   IN [g \in Base |-> IF g = <<0>> \/ g = <<1>> THEN 0
                      ELSE IF k = N \/ (k > 1 /\ g[1] = 1) THEN R[k][g]
                      ELSE Cardinality({h \in Up : Tail(h) = g})]
\* ---- discounts of one order: [ok, edge, D]  (edge: a discount is exactly zero, rounding decides)
CountOfCounts(A, j) == Cardinality({g \in DOMAIN A : A[g] = j})
DiscountOf(A) ==
   LET n == [j \in 1..4 |-> CountOfCounts(A, j)]
       den == n[1] + 2 * n[2]
       some == \A j \in 1..3 : n[j] > 0
       num(j) == (j + 1) * n[1] * n[j + 1]
   IN [ok |-> some /\ \A j \in 1..3 : num(j) <= j * den * n[j],
       edge |-> some /\ \E j \in 1..3 : num(j) = j * den * n[j],
       D |-> IF some THEN [j \in 1..3 |-> j * One - Div(num(j), den * n[j])] ELSE <<0, 0, 0>>]
At(D, a) == IF a = 0 THEN 0 ELSE IF a >= 3 THEN D[3] ELSE D[a]
\* ---- the model of order N
\* prune[k]: n-grams of order k occurring at most this often go; D[k]: discounts
\* (v names a wrong design, to see that it is told apart; "" is the right one)
Kept(R, A, k, prune, v) == IF k = 1 THEN DOMAIN R[1] \cup {<<0>>, <<1>>} ELSE {g \in DOMAIN R[k] : (IF v = "adjprune" THEN A[k][g] ELSE R[k][g]) > prune[k]}
\* denominators and interpolation weights of the contexts of the n-grams of order k
Contexts(A, keep, D, v) ==
   LET H == {Front(g) : g \in DOMAIN A} IN
   [h \in H |-> LET E == TLCEval({g \in DOMAIN A : Front(g) = h})
                    den == FoldLeft(LAMBDA a, g : a + A[g], 0, SetToSeq(E))
                    lost == FoldLeft(LAMBDA a, g : a + A[g], 0, SetToSeq(E \ keep))
                    with(j) == Cardinality({g \in IF v = "prunedcounts" THEN E ELSE E \cap keep : IF j = 3 THEN A[g] >= 3 ELSE A[g] = j})
                    disc == Mul(Div(with(1), den), D[1]) + Mul(Div(with(2), den), D[2]) + Mul(Div(with(3), den), D[3])
                IN [den |-> den, gamma |-> disc + IF v = "nonormaliser" THEN 0 ELSE Div(lost, den)]]
\* discounts first, in units of 1/One of a count: (a - D) / den
Sub(a, D, den) == LET x == Div(a, den)  y == At(D, a) \div den IN x - y
RECURSIVE ProbsUpTo(_, _, _, _, _, _)
\* sequence over orders of [gram |-> interpolated probability]
ProbsUpTo(k, A, Keep, X, D, base) ==
   IF k = 0 THEN <<>>
   ELSE LET low == TLCEval(ProbsUpTo(k - 1, A, Keep, X, D, base))
            c(g) == X[k][Front(g)]
            p == TLCEval([g \in Keep[k] |-> LET u == Sub(A[k][g], D[k], c(g).den) IN
                    IF k > 1 THEN u + Mul(c(g).gamma, IF Tail(g) \in DOMAIN low[k - 1] THEN low[k - 1][Tail(g)] ELSE 0)
                    ELSE IF base >= 0 THEN u + Mul(c(g).gamma, base)
                    ELSE IF g = <<0>> THEN c(g).gamma ELSE u])
        IN Append(low, p)
\* interpolate: whether unigrams are;  pad: assumed size of the vocabulary;
\* fallback: <<>> or three discounts for the orders without closed-form ones
EstimateV(C, N, prune, interpolate, pad, fallback, v) ==
   LET R == RawAll(C, N)
       A == TLCEval([k \in 1..N |-> AdjOf(R, N, k)])
       dd == TLCEval([k \in 1..N |-> DiscountOf(A[k])])
       D == TLCEval([k \in 1..N |-> IF dd[k].ok THEN dd[k].D ELSE IF fallback = <<>> THEN <<0, 0, 0>> ELSE fallback])
       Keep == TLCEval([k \in 1..N |-> Kept(R, A, k, prune, v)])
       X == TLCEval([k \in 1..N |-> Contexts(A[k], Keep[k], D[k], v)])
       V == Cardinality(Keep[1]) - 1
       size == IF pad > V THEN pad ELSE V
       P == TLCEval(ProbsUpTo(N, A, Keep, X, D, IF interpolate THEN Div(1, size) ELSE -1))
       backoff(k, g) == IF k < N /\ g \in DOMAIN X[k + 1] THEN X[k + 1][g].gamma ELSE One
   IN [fails |-> \E k \in 1..N : ~dd[k].ok, edge |-> \E k \in 1..N : dd[k].edge,
       keep |-> Keep, adj |-> A, P |-> P, size |-> size, V |-> V,
       B |-> [k \in 1..N |-> [g \in Keep[k] |-> backoff(k, g)]]]
Estimate(C, N, prune, interpolate, pad, fallback) == EstimateV(C, N, prune, interpolate, pad, fallback, "")
\* ---- use of a back-off model given by P and B (sequences over orders)
RECURSIVE Cond(_, _, _, _)
Cond(P, B, h, w) ==
   LET g == Append(h, w) IN
   IF Len(g) <= Len(P) /\ g \in DOMAIN P[Len(g)] THEN P[Len(g)][g]
   ELSE Mul(IF h \in DOMAIN B[Len(h)] THEN B[Len(h)][h] ELSE One, Cond(P, B, Tail(h), w))
\* <unk> stands for size - V + 1 words
Total(P, B, h, size) ==
   LET W == {g[1] : g \in DOMAIN P[1]} \ {1}  V == Cardinality(W) IN
   FoldLeft(LAMBDA a, w : a + (IF w = 0 THEN size - V + 1 ELSE 1) * Cond(P, B, h, w), 0, SetToSeq(W))
Histories(P, N) == {<<>>} \cup UNION {{g \in DOMAIN P[k] : Last(g) # 2 /\ Last(g) # 0} : k \in 1..(N - 1)}
SumsToOne(P, B, N, size, tol) == \A h \in Histories(P, N) : LET t == Total(P, B, h, size) - One IN t <= tol /\ t >= -tol
\* what query programs rely on: suffixes and contexts of n-grams are there
Closed(P, N) == \A k \in 2..N : \A g \in DOMAIN P[k] : Tail(g) \in DOMAIN P[k - 1] /\ Front(g) \in DOMAIN P[k - 1]
=============================================================================
