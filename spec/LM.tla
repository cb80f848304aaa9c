------------------------------- MODULE LM -------------------------------
(* Back-off n-gram models: what a query, a state and a sentence fragment    *)
(* mean.  A model M has the order M.N and the n-grams M.T, a function from  *)
(* word sequences to [p, b, file]: probability, back-off, and whether the   *)
(* n-gram was in the file or had to be filled in.                            *)
EXTENDS Integers, Sequences, FiniteSets
Back(g) == SubSeq(g, 2, Len(g))              \* without the oldest word
Front(g) == SubSeq(g, 1, Len(g) - 1)         \* without the newest word
Suffix(h, k) == SubSeq(h, Len(h) - k + 1, Len(h))
LMMax(a, b) == IF a > b THEN a ELSE b
LMMin(a, b) == IF a < b THEN a ELSE b

\* ---- the model a file defines.  F: sequence of [g, p, b].  An n-gram may be
\* there without its own newer part; the gap is filled with the back-off value.
RECURSIVE BlankP(_, _)
BlankP(FT, g) == IF g \in DOMAIN FT THEN FT[g].p
                 ELSE BlankP(FT, Back(g)) + (IF Front(g) \in DOMAIN FT THEN FT[Front(g)].b ELSE 0)
Model(N, F, unk) ==
   LET G0 == {F[i].g : i \in 1..Len(F)}
       FT == [g \in G0 \cup {<<0>>} |-> IF g \in G0 THEN LET i == CHOOSE k \in 1..Len(F) : F[k].g = g IN [p |-> F[i].p, b |-> F[i].b]
                                          ELSE [p |-> unk, b |-> 0]]
       G == DOMAIN FT \cup UNION {{Suffix(g, k) : k \in 2..Len(g)} : g \in {x \in G0 : Len(x) > 1}}
       Ctx == {Front(g) : g \in {x \in G : Len(x) > 1}}
       Nwr == {Back(g) : g \in {x \in G : Len(x) > 1}}
   IN [N |-> N,
       T |-> [g \in G |-> [p |-> BlankP(FT, g), b |-> IF g \in DOMAIN FT THEN FT[g].b ELSE 0,
                           ctx |-> g \in Ctx,      \* something continues it
                           lft |-> g \in Nwr]]]    \* something extends it to the left
Has(M, g) == g \in DOMAIN M.T
PrefixClosed(M) == \A g \in DOMAIN M.T : Len(g) > 1 => Has(M, Front(g))
\* ---- a word after a history (the definition)
RECURSIVE ScoreDef(_, _, _)
ScoreDef(M, h, w) ==
   IF Len(h) >= M.N THEN ScoreDef(M, Suffix(h, M.N - 1), w)
   ELSE IF Has(M, Append(h, w)) THEN M.T[Append(h, w)].p
   ELSE (IF Has(M, h) THEN M.T[h].b ELSE 0) + ScoreDef(M, Back(h), w)
RECURSIVE LenDef(_, _, _)
LenDef(M, h, w) ==
   IF Len(h) >= M.N THEN LenDef(M, Suffix(h, M.N - 1), w)
   ELSE IF Has(M, Append(h, w)) THEN Len(h) + 1 ELSE LenDef(M, Back(h), w)
\* ---- what must be remembered of a history
Ext(M, s) == Has(M, s) /\ Len(s) < M.N /\ (M.T[s].b # 0 \/ M.T[s].ctx)
RECURSIVE StateAt(_, _, _)
StateAt(M, h, k) == IF k = 0 THEN <<>> ELSE IF Ext(M, Suffix(h, k)) THEN Suffix(h, k) ELSE StateAt(M, h, k - 1)
StateOf(M, h) == StateAt(M, h, LMMin(Len(h), M.N - 1))
\* back-offs of a state, newest word alone first
StateBack(M, s) == [k \in 1..Len(s) |-> IF Has(M, Suffix(s, k)) THEN M.T[Suffix(s, k)].b ELSE 0]
Newest(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
\* no word further left can change the probability (other than by back-offs)
IndependentLeft(M, h, w) == ~(Has(M, Append(h, w)) /\ M.T[Append(h, w)].lft)
RECURSIVE TotalDef(_, _, _)
TotalDef(M, h, s) == IF s = <<>> THEN 0 ELSE ScoreDef(M, h, s[1]) + TotalDef(M, Append(h, s[1]), Tail(s))

\* ---- fragments of a sentence.  The left state holds the leading words whose
\* probability may still change; it is full when no more words can be told apart.
RECURSIVE LeftFrom(_, _, _)
LeftFrom(M, s, k) ==      \* k leading words are in the left state
   IF k = Len(s) THEN [len |-> k, done |-> FALSE]
   ELSE LET g == SubSeq(s, 1, k + 1) IN
        IF IndependentLeft(M, SubSeq(s, 1, k), s[k + 1]) THEN [len |-> k, done |-> TRUE]
        ELSE IF Len(StateOf(M, g)) < k + 1 THEN [len |-> k + 1, done |-> TRUE]
        ELSE LeftFrom(M, s, k + 1)
Left(M, s, bos) == IF bos THEN [len |-> 0, full |-> TRUE]
                   ELSE LET r == LeftFrom(M, s, 0) IN [len |-> r.len, full |-> r.done \/ r.len = M.N - 1]
\* rest value of a leading n-gram: its probability, or a bound over what may precede it
PlainRest(M, g) == M.T[g].p
MaxRest(M, g) == LET X == {M.T[x].p : x \in {y \in DOMAIN M.T : Len(y) >= Len(g) /\ Suffix(y, Len(g)) = g}} IN CHOOSE a \in X : \A b \in X : b <= a
RECURSIVE FragFrom(_, _, _, _, _, _)
FragFrom(M, Rest(_, _), h, s, i, left) ==
   IF i > Len(s) THEN 0
   ELSE (IF i <= left THEN Rest(M, SubSeq(s, 1, i)) ELSE ScoreDef(M, h, s[i])) + FragFrom(M, Rest, Append(h, s[i]), s, i + 1, left)
FragScore(M, Rest(_, _), s, bos) == FragFrom(M, Rest, IF bos THEN <<1>> ELSE <<>>, s, 1, Left(M, s, bos).len)
Right(M, s, bos) == StateOf(M, IF bos THEN <<1>> \o s ELSE s)
BosState(M, s, bos) == IF bos /\ s = <<>> THEN <<1>> ELSE Right(M, s, bos)
=============================================================================
