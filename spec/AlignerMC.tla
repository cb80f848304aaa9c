----------------------------- MODULE AlignerMC -----------------------------
(* Training on all small corpora: tables stay normalised, posteriors sum to  *)
(* one, the likelihood never falls.  Variants are ways to get it wrong.      *)
EXTENDS Aligner
CONSTANTS Words, MaxLen, NPairs, Iters, Variant
VARIABLES C, cfg, T, k, lik
Sents == UNION {[1..n -> 1..Words] : n \in 1..MaxLen}
Pairs == [s : Sents, t : Sents]
Cfgs == [null : BOOLEAN, diag : {FALSE}, p0 : {8}, L : {2}, vb : BOOLEAN, alpha : {20}] \cup [null : BOOLEAN, diag : {TRUE}, p0 : {20}, L : {2, 4}, vb : {FALSE}, alpha : {1}]
RECURSIVE Lik(_, _, _, _)
Lik(t, c, D, i) == IF i = 0 THEN One ELSE Mul(Lik(t, c, D, i - 1), Given(t, c, D[i]))
Init == /\ C \in [1..NPairs -> Pairs] /\ cfg \in Cfgs
        /\ T = Flat /\ k = 0 /\ lik = 0
WrongPost(t) == [x \in Tokens(C) |-> TLCEval(LET q == Joint(t, cfg, C[x[1]], x[2])  top == Max0({q[i] : i \in DOMAIN q}) IN
                   [i \in DOMAIN q |-> IF q[i] = top THEN One ELSE 0])]                              \* the best position counts, and all that tie with it
ByTarget(N) == LET tot(f) == SumOf({w \in DOMAIN N : w[2] = f}, LAMBDA w : N[w]) IN TLCEval([w \in DOMAIN N |-> Frac(N[w], tot(w[2]))])
NoPrior == [cfg EXCEPT !.diag = FALSE]
Do == CASE Variant = "right" -> Step(T, cfg, C)
        [] Variant = "best" -> Normal(Counts(TLCEval(WrongPost(T)), cfg, C))
        [] Variant = "bytarget" -> ByTarget(Counts(AllPost(T, cfg, C), cfg, C))
        [] Variant = "noprior" -> Step(T, NoPrior, C)
Next == k < Iters /\ T' = Do /\ k' = k + 1 /\ lik' = Lik(T', cfg, C, NPairs) /\ UNCHANGED <<C, cfg>>
SumToOne == (T # Flat /\ ~cfg.vb) => \A e \in {w[1] : w \in DOMAIN T} :
   AbsA(SumOf({w \in DOMAIN T : w[1] = e}, LAMBDA w : T[w]) - One) <= 8
\* the mean-field estimate never has more than the whole mass
Below == (T # Flat /\ cfg.vb /\ AllPrecise(Flat, cfg, C, k)) => \A e \in {w[1] : w \in DOMAIN T} :
   SumOf({w \in DOMAIN T : w[1] = e}, LAMBDA w : T[w]) <= One + 8
Posteriors == \A x \in Tokens(C) : SumJ(Joint(T, cfg, C[x[1]], x[2])) = 0 \/ AbsA(SumJ(Post(T, cfg, C[x[1]], x[2])) - One) <= 8
Climbs == [][(k >= 1 /\ ~cfg.vb) => lik' >= lik - 40]_<<C, cfg, T, k, lik>>
=============================================================================
