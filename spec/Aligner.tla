------------------------------ MODULE Aligner ------------------------------
(***************************************************************************)
(* Word alignment models: expectation maximisation over sentence pairs.    *)
(* Every target word is generated by one source word or by the null word;  *)
(* the choice is uniform or falls off with the distance to the diagonal.   *)
(* All probabilities are integers out of One.  The diagonal model is taken *)
(* at tensions L * log 2 with L * |j n - i m| / (n m) an integer, so that  *)
(* its weights are powers of two.                                          *)
(*   Pair == [s |-> source words, t |-> target words]                      *)
(*   cfg == [null, diag, p0 (hundredths), L, vb, alpha (hundredths)]        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC, ExpDigamma
One == 250000
Half == 500
NullW == 0
\* a * One \div b without leaving 32 bits (a <= 16 * One, b < 17 * One)
Frac(a, b) == LET q == (a * Half) \div b  r == (a * Half) % b IN q * Half + (r * Half) \div b
\* a * b \div One for a, b <= One
Mul(a, b) == LET bh == b \div Half  bl == b % Half IN (a * bh) \div Half + (a * bl) \div One
AbsA(x) == IF x < 0 THEN -x ELSE x
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
SumOf(S, w(_)) == FoldSet(LAMBDA x, a : a + w(x), 0, S)
Max0(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

(* ---- where a target word comes from, before any word is looked at ------ *)
\* distance of source position i and target position j, in units of 1 / (n m)
Dist(j, i, m, n) == AbsA(i * m - j * n)
Steps(cfg, j, i, m, n) == (cfg.L * Dist(j, i, m, n)) \div (n * m)
\* weight of source position i relative to the heaviest one, a power of two
Weights(cfg, j, m, n) == LET top == Max0({Steps(cfg, j, i, m, n) : i \in 1..n}) IN
   [i \in 1..n |-> Pow2(top - Steps(cfg, j, i, m, n))]
\* probability of the null word, and of every source position
Prior0(cfg, n) == IF ~cfg.null THEN 0 ELSE IF cfg.diag THEN (One \div 100) * cfg.p0 ELSE One \div (n + 1)
\* of source position i: (the diagonal model leaves 1 - p0 to them also without a null word)
Prior(cfg, j, m, n) ==
   IF cfg.diag THEN LET w == Weights(cfg, j, m, n)  z == SumSeq(w) IN [i \in 1..n |-> ((One \div 100) * (100 - cfg.p0) * w[i]) \div z]
   ELSE [i \in 1..n |-> One \div (n + (IF cfg.null THEN 1 ELSE 0))]

(* ---- expectation ------------------------------------------------------- *)
\* T: function on pairs of words; absent pairs have (almost) no probability
P(T, e, f) == IF <<e, f>> \in DOMAIN T THEN T[<<e, f>>] ELSE 0
Flat == [x \in {<<-1, -1>>} |-> 0]
\* joint probabilities of target word j of pair p: position 0 is the null word.  T = Flat before the first iteration, when all words are alike
Joint(T, cfg, p, j) ==
   LET n == Len(p.s)  m == Len(p.t)  pr == Prior(cfg, j, m, n)
       t(e) == IF T = Flat THEN One ELSE P(T, e, p.t[j]) IN
   TLCEval([i \in 0..n |-> IF i = 0 THEN (IF cfg.null THEN Mul(t(NullW), Prior0(cfg, n)) ELSE 0) ELSE Mul(t(p.s[i]), pr[i])])
SumJ(q) == SumOf(DOMAIN q, LAMBDA i : q[i])
Post(T, cfg, p, j) == LET q == Joint(T, cfg, p, j)  z == SumJ(q) IN
   TLCEval([i \in DOMAIN q |-> IF z = 0 THEN 0 ELSE Frac(q[i], z)])
Tokens(C) == UNION {{<<k, j>> : j \in 1..Len(C[k].t)} : k \in 1..Len(C)}
Word(p, i) == IF i = 0 THEN NullW ELSE p.s[i]
AllPost(T, cfg, C) == TLCEval([x \in Tokens(C) |-> Post(T, cfg, C[x[1]], x[2])])
Seen(cfg, C) == UNION {{<<Word(C[x[1]], i), C[x[1]].t[x[2]]>> : i \in (IF cfg.null THEN 0 ELSE 1)..Len(C[x[1]].s)} : x \in Tokens(C)}
Counts(PP, cfg, C) == TLCEval(
   [w \in Seen(cfg, C) |->
      SumOf({x \in Tokens(C) : C[x[1]].t[x[2]] = w[2]}, LAMBDA x :
         SumOf({i \in DOMAIN PP[x] : Word(C[x[1]], i) = w[1] /\ (i > 0 \/ cfg.null)}, LAMBDA i : PP[x][i]))])
(* ---- maximisation ------------------------------------------------------ *)
Normal(N) == LET es == {w[1] : w \in DOMAIN N}
                 tot == TLCEval([e \in es |-> SumOf({w \in DOMAIN N : w[1] = e}, LAMBDA w : N[w])]) IN
   TLCEval([w \in DOMAIN N |-> IF tot[w[1]] = 0 THEN 0 ELSE Frac(N[w], tot[w[1]])])
\* mean-field (variational Bayes) estimate under a symmetric Dirichlet prior: the table need not sum to one
VBTotal(N, cfg, e) == SumOf({w \in DOMAIN N : w[1] = e}, LAMBDA w : N[w] + 2500 * cfg.alpha)
VBNormal(N, cfg) == LET es == {w[1] : w \in DOMAIN N}
                        tot == TLCEval([e \in es |-> ED(VBTotal(N, cfg, e))]) IN
   TLCEval([w \in DOMAIN N |-> Frac(ED(N[w] + 2500 * cfg.alpha), tot[w[1]])])
\* whether fixed point is precise enough for it
Precise(N, cfg) == ~cfg.vb \/ \A w \in DOMAIN N : VBTotal(N, cfg, w[1]) >= One \div 2
Estimate(N, cfg) == IF cfg.vb THEN VBNormal(N, cfg) ELSE Normal(N)
Step(T, cfg, C) == Estimate(Counts(AllPost(T, cfg, C), cfg, C), cfg)
RECURSIVE AllPrecise(_, _, _, _)
\* the first k steps from T are precise
AllPrecise(T, cfg, C, k) == k = 0 \/ ~cfg.vb \/ LET N == Counts(AllPost(T, cfg, C), cfg, C) IN Precise(N, cfg) /\ AllPrecise(TLCEval(Estimate(N, cfg)), cfg, C, k - 1)
RECURSIVE Train(_, _, _, _)
Train(T, cfg, C, k) == IF k = 0 THEN T ELSE Train(Step(T, cfg, C), cfg, C, k - 1)

(* ---- what is decided and reported with a table ------------------------- *)
\* a may be the link of target word j (0: none), up to what rounding and the tolerance hide
LinkOk(T, cfg, p, j, a, tol) == LET q == Joint(T, cfg, p, j) IN
   /\ a \in DOMAIN q
   /\ a = 0 => (cfg.null \/ SumJ(q) <= tol)
   /\ \A i \in DOMAIN q : q[i] <= q[a] + tol
\* probability of the target words given their number
RECURSIVE ProdTo(_, _, _, _)
ProdTo(T, cfg, p, j) == IF j = 0 THEN One ELSE LET s == SumJ(Joint(T, cfg, p, j)) IN Mul(ProdTo(T, cfg, p, j - 1), IF s > One THEN One ELSE s)
Given(T, cfg, p) == ProdTo(T, cfg, p, Len(p.t))
\* expected distance under the model alone, out of 10000, over all target words
ModelDist(cfg, C) ==
   SumOf(Tokens(C), LAMBDA x : LET p == C[x[1]]  n == Len(p.s)  m == Len(p.t)  w == Weights(cfg, x[2], m, n)  z == SumSeq(w) IN
      (10000 * SumSeq([i \in 1..n |-> w[i] * Dist(x[2], i, m, n)])) \div (z * n * m))
\* and under the posteriors
PostDist(PP, cfg, C) ==
   SumOf(Tokens(C), LAMBDA x : LET p == C[x[1]]  n == Len(p.s)  m == Len(p.t) IN
      SumSeq([i \in 1..n |-> ((PP[x][i] \div 25) * Dist(x[2], i, m, n)) \div (n * m)]))
NullMass(PP, cfg, C) == IF cfg.null THEN SumOf(DOMAIN PP, LAMBDA x : PP[x][0] \div 25) ELSE 0
=============================================================================
