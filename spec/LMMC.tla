------------------------------- MODULE LMMC -------------------------------
(* Design level: scoring from the minimised state, and combining fragments  *)
(* of a sentence in any order with only their left and right states.         *)
EXTENDS LM, TLC
CONSTANTS N, V, MaxLen, Bos, Seed, Density, Variant   \* V: words; Seed..: which models; Variant: a wrong algorithm
VARIABLES M, A, B       \* the model and two fragments [s, bos, p, left, full, right]
Seqs(n) == UNION {[1..k -> V] : k \in 1..n}
RECURSIVE HashSeq(_, _)
HashSeq(g, a) == IF g = <<>> THEN a \div 3 ELSE HashSeq(Tail(g), (a * a + a * 31 + g[1] * 1721 + Len(g) * 377 + 11) % 10007)
\* back-off weights belong to contexts: a fragment whose last n-gram has one without
\* being a context may charge it early (the sum over a sentence is the same)
\* an arbitrary but fixed assignment of values
PV(g, sd) == -1 - (HashSeq(g, sd) % 5)
BV(g, sd) == IF HashSeq(g, sd + 77) % 3 = 0 THEN 0 ELSE -(HashSeq(g, sd + 5) % 4)
ModelOf(S, sd) ==
   LET Uni == {<<v>> : v \in V \cup {0}}
       G == Uni \cup S
   IN Model(N, LET f[X \in SUBSET G] == IF X = {} THEN <<>> ELSE LET g == CHOOSE x \in X : TRUE IN <<[g |-> g, p |-> PV(g, sd), b |-> IF \E x \in S : Front(x) = g THEN BV(g, sd) ELSE 0]>> \o f[X \ {g}] IN f[G], -100)
\* prefix-closed sets of n-grams
Closed(S) == \A g \in S : Len(g) > 2 => Front(g) \in S
Higher(n) == {g \in Seqs(n) : Len(g) > 1}
Pick(S, sd) == {g \in S : HashSeq(g, sd) % 4 < Density}
RECURSIVE CloseF(_)
CloseF(S) == LET X == S \cup {Front(g) : g \in {y \in S : Len(y) > 2}} IN IF X = S THEN S ELSE CloseF(X)
Empty(b) == [s |-> <<>>, bos |-> b, p |-> 0, left |-> <<>>, done |-> b, right |-> IF b THEN <<1>> ELSE <<>>]
Init == /\ \E sd \in 1..Seed : M = ModelOf(CloseF(Pick(Higher(N), sd)), sd)
        /\ A \in {Empty(b) : b \in IF Bos THEN {FALSE, TRUE} ELSE {FALSE}} /\ B = Empty(FALSE)
Full(f) == f.done \/ Len(f.left) = N - 1
\* --- the rule scorer, on states only
Terminal(f, w) ==
   LET il == IndependentLeft(M, f.right, w)
       p == ScoreDef(M, f.right, w)
       r == StateOf(M, Append(f.right, w))
       add == ~f.done /\ ~il
   IN [f EXCEPT !.s = Append(@, w), !.p = @ + (IF add THEN M.T[Append(f.right, w)].p ELSE p), !.right = r,
                !.left = IF add THEN Append(@, w) ELSE @,
                !.done = @ \/ il \/ (Variant # "noshrink" /\ Len(r) # Len(f.right) + 1)]
\* a following fragment is added word by word of its left state; the rest of it only pays back-offs
RECURSIVE AddLeft(_, _, _, _)
SumB(s) == LET f[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE f[k - 1] + StateBack(M, s)[k] IN f[Len(s)]
\* acc: [p, left, done, use] where use = how much of the earlier context still matters
AddLeft(f, g, i, acc) ==
   IF i > Len(g.left) \/ acc.use = 0 THEN acc
   ELSE LET ctx == Suffix(f.right, acc.use)
            h == ctx \o SubSeq(g.left, 1, i - 1)
            w == g.left[i]
            il == IndependentLeft(M, h, w)
            add == ~acc.done /\ ~il
            st == StateOf(M, Append(h, w))
            use == LMMax(0, Len(st) - i)
        IN AddLeft(f, g, i + 1, [p |-> acc.p + ScoreDef(M, h, w) - M.T[SubSeq(g.left, 1, i)].p,
                                 left |-> IF add THEN Append(acc.left, w) ELSE acc.left,
                                 done |-> acc.done \/ il \/ (Variant # "nodone" /\ use # Len(f.right)),
                                 use |-> use])
TailBack(s, use, n) ==  \* back-offs of the earlier context once n more words are remembered
   LET b == StateBack(M, s) IN LET f[k \in 0..use] == IF k = 0 THEN 0 ELSE f[k - 1] + b[n + k] IN f[use]
NonTerminal(f, g) ==
   LET str == f.s \o g.s IN
   IF g.left = <<>> THEN IF Full(g) THEN [f EXCEPT !.s = str, !.p = @ + g.p + SumB(f.right), !.done = TRUE, !.right = g.right]
                          ELSE [f EXCEPT !.s = str, !.p = @ + g.p]
   ELSE IF f.right = <<>> THEN
        [f EXCEPT !.s = str, !.p = @ + g.p, !.right = g.right,
           !.left = IF ~f.done /\ f.left = <<>> THEN g.left ELSE @,
           !.done = IF f.done THEN TRUE ELSE IF f.left = <<>> THEN Full(g) ELSE TRUE]
   ELSE LET acc == AddLeft(f, g, 1, [p |-> 0, left |-> f.left, done |-> f.done, use |-> Len(f.right)])
            ctx == Suffix(f.right, acc.use)
        IN IF acc.use = 0 THEN [f EXCEPT !.s = str, !.p = @ + g.p + acc.p, !.left = acc.left, !.done = TRUE, !.right = g.right]
           ELSE IF Full(g) THEN [f EXCEPT !.s = str, !.p = @ + g.p + acc.p + (IF Variant = "noback" THEN 0 ELSE TailBack(ctx \o g.left, acc.use, Len(g.left))), !.left = acc.left, !.done = TRUE, !.right = g.right]
           ELSE IF Len(g.right) < Len(g.left) THEN [f EXCEPT !.s = str, !.p = @ + g.p + acc.p, !.left = acc.left, !.done = acc.done, !.right = g.right]
           ELSE [f EXCEPT !.s = str, !.p = @ + g.p + acc.p, !.left = acc.left, !.done = acc.done, !.right = ctx \o g.right]
Len2 == Len(A.s) + Len(B.s)
Next == \/ \E w \in V : Len2 < MaxLen /\ A' = Terminal(A, w) /\ UNCHANGED <<M, B>>
        \/ \E w \in V : Len2 < MaxLen /\ B' = Terminal(B, w) /\ UNCHANGED <<M, A>>
        \/ B.s # <<>> /\ A' = NonTerminal(A, B) /\ B' = Empty(FALSE) /\ UNCHANGED M
        \/ A.s # <<>> /\ B.s = <<>> /\ ~A.bos /\ B' = A /\ A' \in {Empty(b) : b \in IF Bos THEN {FALSE, TRUE} ELSE {FALSE}} /\ UNCHANGED M
\* ---- properties
Closure == PrefixClosed(M)
FragRight(f) ==
   LET L == Left(M, f.s, f.bos) IN
   /\ f.p = FragScore(M, PlainRest, f.s, f.bos)
   /\ f.left = SubSeq(f.s, 1, L.len) /\ Full(f) = L.full
   /\ f.right = BosState(M, f.s, f.bos)
Bracketing == FragRight(A) /\ FragRight(B)
\* the minimised state answers every later question like the whole history
StateEnough == \A w \in V \cup {0} :
   LET h == IF A.bos THEN <<1>> \o A.s ELSE A.s  s == BosState(M, A.s, A.bos) IN
   /\ ScoreDef(M, h, w) = ScoreDef(M, s, w)
   /\ Len(h) > 0 => StateOf(M, Append(h, w)) = StateOf(M, Append(s, w))
\* a full left state is final: more context to the left only costs back-offs
FullFinal == Full(B) => \A u \in Seqs(2) :
   LET L == Left(M, B.s, FALSE) uL == Left(M, u \o B.s, FALSE) IN
   uL.full /\ \A w \in V : Left(M, B.s \o <<w>>, FALSE) = L
=============================================================================
