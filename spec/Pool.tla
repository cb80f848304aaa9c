------------------------------- MODULE Pool -------------------------------
(***************************************************************************)
(* What tuning works from: pools of candidate translations that grow over  *)
(* the iterations, in memory and in a repository with one file for every   *)
(* sentence; and what is computed from a pool: training pairs, expected    *)
(* loss, entropy, cost-augmented updates, consensus decisions.             *)
(* A candidate is [y |-> words, f |-> feature values]; two derivations     *)
(* with the same words and feature values are one candidate.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
LOCAL F0 == INSTANCE Forest
Range0(s) == {s[i] : i \in 1..Len(s)}
AbsP(x) == IF x < 0 THEN -x ELSE x
Sum0(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumS(S, w(_)) == FoldSet(LAMBDA x, a : a + w(x), 0, S)
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : y >= x
C(d) == [y |-> d.y, f |-> d.f]

(* ---- adding the k best of a forest ------------------------------------ *)
\* the value reached by the k best of the items S valued by v (there are more than k)
Cut(S, v(_), k) == LET vs == {v(x) : x \in S} IN
   CHOOSE c \in vs : Cardinality({x \in S : v(x) > c}) < k /\ k <= Cardinality({x \in S : v(x) >= c})
AddOk(old, new, ds, w, k) ==
   LET s(d) == F0!Dot(d.f, w) IN
   IF Cardinality(ds) <= k THEN new = old \cup {C(d) : d \in ds}
   ELSE IF k = 0 THEN new = old
   ELSE LET cut == Cut(ds, s, k)
            above == {d \in ds : s(d) > cut}
            at == {d \in ds : s(d) = cut} IN
        /\ old \subseteq new
        /\ {C(d) : d \in above} \subseteq new
        /\ (new \ old) \subseteq {C(d) : d \in above \cup at}
        /\ Cardinality({d \in at : C(d) \in new}) >= k - Cardinality(above)
        /\ Cardinality({c \in new \ old : \E d \in at : C(d) = c}) <= k - Cardinality(above)
UniqOk(old, new, ds, w, k) ==
   LET s(d) == F0!Dot(d.f, w)
       Y == {d.y : d \in ds}
       best(y) == MaxS({s(d) : d \in {q \in ds : q.y = y}})
       CB(y) == {C(d) : d \in {q \in ds : q.y = y /\ s(q) = best(y)}}
       cut == IF Cardinality(Y) <= k THEN MinS({best(y) : y \in Y}) ELSE Cut(Y, best, k)
       above == {y \in Y : best(y) > cut}
       at == {y \in Y : best(y) = cut} IN
   IF k = 0 THEN new = old
   ELSE /\ old \subseteq new
        /\ \A y \in above : CB(y) \cap new # {}
        /\ (new \ old) \subseteq UNION {CB(y) : y \in above \cup at}
        /\ \A y \in Y : Cardinality({c \in new \ old : c.y = y}) <= 1
        /\ LET room == IF Cardinality(Y) <= k THEN Cardinality(at) ELSE k - Cardinality(above) IN
           /\ Cardinality({y \in at : CB(y) \cap new # {}}) >= room
           /\ Cardinality({c \in new \ old : c.y \in at}) <= room

(* ---- training pairs ---------------------------------------------------- *)
\* sc(c): score of a candidate in millionths; err: lower is better
Diff(a, b) == [i \in 1..Len(a.f) |-> a.f[i] - b.f[i]]
Eligible(P, sc(_)) == {<<a, b>> \in P \X P : sc(a) # sc(b) /\ a.f # b.f}
Gain(p, sc(_)) == AbsP(sc(p[1]) - sc(p[2]))
First(p, sc(_), err) == IF err = 1 THEN sc(p[1]) < sc(p[2]) ELSE sc(p[1]) > sc(p[2])
\* lines: sequence of [y |-> 0/1, f |-> difference]
PairsOk(P, sc(_), err, lines, xi) ==
   LET E == Eligible(P, sc)
       fits(i) == {p \in E : Diff(p[1], p[2]) = lines[i].f /\ (lines[i].y = 1) = First(p, sc, err)}
       n == Len(lines) \div 2
       hi(i) == MaxS({Gain(p, sc) : p \in fits(2 * i - 1)})
       lo(i) == MinS({Gain(p, sc) : p \in fits(2 * i - 1)}) IN
   /\ Len(lines) % 2 = 0
   /\ \A i \in 1..n : /\ lines[2 * i].y = 1 - lines[2 * i - 1].y
                      /\ lines[2 * i].f = [k \in 1..Len(lines[2 * i].f) |-> -lines[2 * i - 1].f[k]]
                      /\ fits(2 * i - 1) # {}
   /\ n <= xi
   /\ E = {} => n = 0
   \* the pairs kept are those that differ most
   /\ \A i \in 2..n : lo(i) <= hi(i - 1) + 2

(* ---- expected loss and entropy at p(c) proportional to 2^n(c) ----------- *)
LnTab == << 0, 6931, 10986, 13863, 16094, 17918, 19459, 20794, 21972, 23026, 23979, 24849, 25649, 26391, 27081, 27726, 28332, 28904, 29444, 29957,
   30445, 30910, 31355, 31781, 32189, 32581, 32958, 33322, 33673, 34012, 34340, 34657, 34965, 35264, 35553, 35835, 36109, 36376, 36636, 36889,
   37136, 37377, 37612, 37842, 38067, 38286, 38501, 38712, 38918, 39120, 39318, 39512, 39703, 39890, 40073, 40254, 40431, 40604, 40775, 40943,
   41109, 41271, 41431, 41589, 41744, 41897, 42047, 42195, 42341, 42485, 42627, 42767, 42905, 43041, 43175, 43307, 43438, 43567, 43694, 43820 >>   \* 10000 ln i
Ln2 == 6931
Pw(n) == 2 ^ n
NOf(c, p) == F0!Dot(c.f, p)
\* all in ten-thousandths; tolerances cover the rounding of the table
ExpectOk(P, p, cost(_), o) ==
   LET m == MinS({NOf(c, p) : c \in P})
       n(c) == NOf(c, p) - m
       q(c) == Pw(n(c))
       Z == SumS(P, q)
       R == SumS(P, LAMBDA c : q(c) * cost(c))
       lp(c) == n(c) * Ln2 - LnTab[Z]                 \* log probability
       H == -SumS(P, LAMBDA c : q(c) * lp(c))           \* Z times the entropy
       nf == Len(p)
       EF(k) == SumS(P, LAMBDA c : q(c) * c.f[k])
       RF(k) == SumS(P, LAMBDA c : q(c) * cost(c) * c.f[k])
       LF(k) == SumS(P, LAMBDA c : q(c) * lp(c) * c.f[k])
       A(k) == SumS(P, LAMBDA c : q(c) * AbsP(c.f[k])) IN
   /\ AbsP((o.risk \div 100) * Z - R) <= 3 * Z
   /\ AbsP((o.ent \div 100) * Z - H) <= 4 * Z
   /\ \A k \in 1..nf :
        \* gradient of the expected loss
        /\ AbsP((o.rg[k] \div 100) * Z * Z - (Z * RF(k) - R * EF(k))) <= 3 * Z * Z + 3 * Z * A(k)
        \* gradient of the negated entropy
        /\ AbsP((o.eg[k] \div 100) * Z * Z - (Z * LF(k) + H * EF(k))) <= 4 * Z * Z + 6 * Z * A(k)

(* ---- cost-augmented updates (ramp loss, CCCP) ---------------------------- *)
\* weights are integers over SC; cost in thousandths; eta = 1/En; every update first takes 1/Rn off the weights (Rn = 0: nothing)
VAdd(a, b, x) == [i \in 1..Len(a) |-> a[i] + x * b[i]]
Near0(P, W, cost, alpha, SC) ==
   LET v(c) == F0!Dot(W, c.f) * 1000 + alpha * cost[c] * SC
       top == MaxS({v(c) : c \in P}) IN {c \in P : v(c) >= top - 2 * AbsP(alpha) * SC}
RECURSIVE Subgrad(_, _, _, _, _, _, _)
\* i: next sentence; G: sequence of goal candidates
Subgrad(Ps, W, G, costs, i, a, rest) ==
   IF i > Len(Ps) THEN IF rest = 1 THEN {W} ELSE Subgrad(Ps, W, G, costs, 1, a, rest - 1)
   ELSE UNION { LET W1 == IF a.Rn = 0 THEN W ELSE [k \in 1..Len(W) |-> W[k] - W[k] \div a.Rn]
                    d == Diff(G[i], c) IN
                Subgrad(Ps, VAdd(W1, d, a.SC \div a.En), G, costs, i + 1, a, rest)
              : c \in Near0(Ps[i], W, costs[i], a.alpha, a.SC) }
RECURSIVE Goals(_, _, _, _, _)
Goals(Ps, W, costs, a, i) == IF i > Len(Ps) THEN {<<>>}
   ELSE {<<g>> \o rest : g \in Near0(Ps[i], W, costs[i], -a.alpha, a.SC), rest \in Goals(Ps, W, costs, a, i + 1)}
RECURSIVE CccpF(_, _, _, _, _)
CccpF(Ps, Ws, costs, a, it) == IF it = 0 THEN Ws
   ELSE CccpF(Ps, UNION {UNION {Subgrad(Ps, W, G, costs, 1, a, a.ssd) : G \in Goals(Ps, W, costs, a, 1)} : W \in Ws}, costs, a, it - 1)

(* ---- consensus decisions ------------------------------------------------- *)
\* L[i][j]: loss in 1/100000 of item j taking item i as the reference; n[i]: log2 of the weight of item i
ExpLoss(L, n, i) == SumS((1..Len(n)) \ {i}, LAMBDA j : Pw(n[j]) * L[i][j])
Perms(N) == {f \in [1..N -> 1..N] : \A i, j \in 1..N : i # j => f[i] # f[j]}
Micro(p, q) == (p \div q) * 1000000 + ((p % q) * (1000000 \div q)) + ((p % q) * (1000000 % q)) \div q
Total(n) == SumS(1..Len(n), LAMBDA j : Pw(n[j]))
=============================================================================
