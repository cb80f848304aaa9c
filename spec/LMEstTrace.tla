----------------------------- MODULE LMEstTrace -----------------------------
(* Models printed by the estimator, against the definition.                  *)
EXTENDS LMEst, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunks == 1..((Len(Trace) + 15) \div 16)
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in Chunks : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E i \in ((l - 1) * 16 + 1)..(l * 16) : i <= Len(Trace) /\ l' = i /\ st' = "case"
\* entries: <<gram, probability, back-off, log p, log b>>, per order
Grams(e) == {e[i][1] : i \in DOMAIN e}
Value(e, j) == [g \in Grams(e) |-> e[CHOOSE i \in DOMAIN e : e[i][1] = g][j]]
Near(x, y) == LET d == x - y  t == 30 + (y \div 20000) IN d <= t /\ d >= -t
Sound(r, e) == /\ Len(e) = r.N /\ Len(r.counts) = r.N
               /\ \A k \in 1..r.N : r.counts[k] = Len(e[k]) /\ Len(e[k]) = Cardinality(Grams(e[k]))
\* log-probability of a sentence: back-off model, and collapsed values
RECURSIVE LogCond(_, _, _, _)
LogCond(P, B, h, w) ==
   LET g == Append(h, w) IN
   IF Len(g) <= Len(P) /\ g \in DOMAIN P[Len(g)] THEN P[Len(g)][g]
   ELSE (IF h \in DOMAIN B[Len(h)] THEN B[Len(h)][h] ELSE 0) + LogCond(P, B, Tail(h), w)
RECURSIVE LogLongest(_, _, _)
LogLongest(Q, h, w) == LET g == Append(h, w) IN
   IF Len(g) <= Len(Q) /\ g \in DOMAIN Q[Len(g)] THEN Q[Len(g)][g] ELSE LogLongest(Q, Tail(h), w)
Ctx(s, i, N) == SubSeq(s, IF i - N + 1 < 1 THEN 1 ELSE i - N + 1, i - 1)
OverSentence(s, N, f(_, _)) == FoldLeft(LAMBDA a, i : a + f(Ctx(s, i, N), s[i]), 0, [i \in 1..(Len(s) - 1) |-> i + 1])
ModelOk(r) ==
   LET E == TLCEval(Estimate(r.corpus, r.N, r.prune, r.interp, r.pad, r.fb))
       e == r.e
       P == TLCEval([k \in 1..r.N |-> Value(e[k], 2)])
       B == TLCEval([k \in 1..r.N |-> Value(e[k], 3)])
   IN /\ \/ ~E.fails \/ E.edge \/ r.fb # <<>>
      /\ Sound(r, e)
      /\ \A k \in 1..r.N : Grams(e[k]) = E.keep[k]
      /\ Closed(P, r.N)
      /\ \A k \in 1..r.N : \A g \in E.keep[k] :
            E.edge \/ ((g # <<1>> => Near(P[k][g], E.P[k][g])) /\ (k < r.N => Near(B[k][g], E.B[k][g])))
      /\ SumsToOne(P, B, r.N, E.size, 60 * E.size + 400)
      \* (a context without mass to give away has no collapsed form)
      /\ IF "q" \in DOMAIN r /\ \A k \in 1..r.N : \A g \in DOMAIN B[k] : B[k][g] > 0
         THEN /\ Sound(r, r.q)
              /\ \A k \in 1..r.N : Grams(r.q[k]) = E.keep[k]
              /\ LET LP == TLCEval([k \in 1..r.N |-> Value(e[k], 4)])
                     LB == TLCEval([k \in 1..r.N |-> Value(e[k], 5)])
                     LQ == TLCEval([k \in 1..r.N |-> Value(r.q[k], 4)])
                 IN \A x \in 1..Len(r.sents) : LET s == <<1>> \o r.sents[x] \o <<2>>
                       d == OverSentence(s, r.N, LAMBDA h, w : LogCond(LP, LB, h, w)) - OverSentence(s, r.N, LAMBDA h, w : LogLongest(LQ, h, w))
                           c == d - (IF r.N > 1 THEN LB[1][<<1>>] ELSE 0)   \* every sentence is off by the back-off of <s>
                    IN c <= 10 * Len(s) /\ c >= -(10 * Len(s))
         ELSE TRUE
CaseOk(r) == CASE r.end = "ok" -> /\ ModelOk(r) /\ r.special = 0
                                  /\ r.tokens \in {-1, FoldLeft(LAMBDA a, s : a + Len(s), 0, r.corpus)}
                                  /\ (r.vocab = <<-1>> \/ (Len(r.vocab) = Cardinality(ToSet(r.vocab)) /\ ToSet(r.vocab) = {0, 1, 2} \cup UNION {ToSet(r.corpus[i]) : i \in DOMAIN r.corpus}))
               [] r.end = "discount" -> LET R == RawAll(r.corpus, r.N)  D == [k \in 1..r.N |-> DiscountOf(AdjOf(R, r.N, k))] IN
                                        r.fb = <<>> /\ \E k \in 1..r.N : ~D[k].ok \/ D[k].edge
               [] r.end = "special" -> r.special = 1
               [] r.end = "memory" -> TRUE
               [] OTHER -> FALSE
Accepted == st # "case" \/ LET r == Trace[l] IN ("crash" \notin DOMAIN r) /\ CaseOk(r)
=============================================================================
