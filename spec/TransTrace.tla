----------------------------- MODULE TransTrace -----------------------------
(* Judges recorded tree-to-string, compound-splitting and finite-state      *)
(* translations.                                                            *)
EXTENDS Trans, TLC, Json, IOUtils
VARIABLES l, st
Trace == ndJsonDeserialize(IOEnv.TRACE)
NCh == 16
TInit == l = 0 /\ st = "start"
TNext == \/ st = "start" /\ \E c \in 1..NCh : l' = c /\ st' = "chunk"
         \/ st = "chunk" /\ \E k \in {q \in 1..Len(Trace) : q % NCh = l % NCh} : l' = k /\ st' = "case"
\* derivations of a node of the observed forest, as sequences (with repetitions) of shown steps
Cross(a, b) == FoldLeft(LAMBDA acc, x : acc \o [q \in 1..Len(b) |-> x \o b[q]], <<>>, a)
Tails(T, ed) == FoldLeft(LAMBDA acc, t : Cross(acc, T[t + 1]), <<<<>>>>, ed.t)
Table(F, Of(_, _)) == FoldLeft(LAMBDA T, v : Append(T, FoldLeft(LAMBDA acc, x : acc \o Of(T, F.E[x]), <<>>, F.in[v])), <<>>, [v \in 1..F.n |-> v])
Sorted(F) == \A i \in 1..Len(F.E) : \A k \in 1..Len(F.E[i].t) : F.E[i].t[k] < F.E[i].h
Count(f, x) == Cardinality({i \in DOMAIN f : f[i] = x})
SameBag(f, g) == LET vals == {f[i] : i \in DOMAIN f} \cup {g[i] : i \in DOMAIN g} IN \A x \in vals : Count(f, x) = Count(g, x)
BadSplit == <<<<<<-1, -1, "?", "?", {}>>>>>>
BadFst == <<<<<<<<"?">>, <<"?">>, {}>>>>>>
\* every edge into the goal adds nothing
Goals(F, lab) ==
  /\ F.c[F.n] = "Goal"
  /\ \A i \in 1..Len(F.E) : F.E[i].h = F.n - 1 =>
        F.E[i].lhs = "Goal" /\ F.E[i].e = <<"[1]">> /\ F.E[i].f = <<<<1, lab>>>> /\ NonZero(F.E[i].fs) = {} /\ Len(F.E[i].t) = 1
\* trees: steps in pre-order
TreeEdge(T, ed) == IF ed.lhs = "Goal" THEN Tails(T, ed) ELSE Cross(<<<<<<ed.i, ed.j, ed.lhs, ed.f, ed.e, NonZero(ed.fs)>>>>>>, Tails(T, ed))
\* the category of a node is the label of the subtree it stands for
Cats(F) == \A i \in 1..Len(F.E) : F.E[i].lhs = F.c[F.E[i].h + 1]
TreeOk(r, k) ==
  LET t == r.trees[k]
      G0 == r.T \o r.extra[k]
      G == IF r.pass THEN G0 \o Copies(G0, t) ELSE G0
      want == Derivs(G, t, 0)
      res == r.res[k] IN
  IF want = {} THEN res.ok = 0
  ELSE /\ res.ok = 1 /\ Sorted(res.F) /\ Goals(res.F, t[2]) /\ Cats(res.F)
       /\ LET got == Table(res.F, TreeEdge)[res.F.n] IN
          /\ Len(got) = Cardinality(want)
          /\ SameBag([d \in want |-> [q \in 1..Len(d) |-> ShowT(G, d[q])]], got)
SplitEdge(T, ed) ==
  CASE ed.lhs = "Goal" -> Tails(T, ed)
    [] Len(ed.t) = 0 -> IF ed.f = <<<<0, "#">>>> /\ ed.e = <<"#">> /\ NonZero(ed.fs) = {} THEN <<<<>>>> ELSE BadSplit
    [] OTHER -> IF Len(ed.t) = 1 /\ Len(ed.f) = 2 /\ ed.f[1] = <<1, "X">> /\ ed.f[2][1] = 0 /\ Len(ed.e) = 2 /\ ed.e[1] = "[1]"
                THEN Cross(Tails(T, ed), <<<<<<ed.i, ed.j, ed.f[2][2], ed.e[2], NonZero(ed.fs)>>>>>>) ELSE BadSplit
SplitOk(r, k) ==
  LET want == Splits(r.words[k], 0)  res == r.res[k] IN
  /\ res.ok = 1 /\ Sorted(res.F) /\ Goals(res.F, "X") /\ res.len = Len(r.words[k])
  /\ LET got == Table(res.F, SplitEdge)[res.F.n] IN Len(got) = Cardinality(want) /\ {got[i] : i \in 1..Len(got)} = want
\* finite-state: the phrases in order; one feature for the whole input
FTop == <<<<>>, <<>>, {<<"TOP", 1000>>}>>
FstEdge(T, ed) ==
  CASE ed.lhs = "Goal" -> Tails(T, ed)
    [] Len(ed.t) = 0 -> <<<<<<[q \in 1..Len(ed.f) |-> IF ed.f[q][1] = 0 THEN ed.f[q][2] ELSE "?"], ed.e, NonZero(ed.fs)>>>>>>
    [] OTHER -> Cross(IF NonZero(ed.fs) = {} THEN <<<<>>>> ELSE <<<<<<<<>>, <<>>, NonZero(ed.fs)>>>>>>,
                      IF (Len(ed.t) = 1 /\ ed.e = <<"[1]">>) \/ (Len(ed.t) = 2 /\ ed.e = <<"[1]", "[2]">>) THEN Tails(T, ed) ELSE BadFst)
FstOk(r, k) ==
  LET S == r.sents[k]
      P == IF r.pass THEN r.P \o SetToSeq({[f |-> <<w>>, e |-> <<w>>, fs |-> <<<<"PassThrough", 1000>>>>] : w \in {x \in Rng(S) : \A q \in 1..Len(r.P) : r.P[q].f # <<x>>}}) ELSE r.P
      want == IF S = <<>> THEN {} ELSE Mono(P, S, 0)
      res == r.res[k] IN
  IF want = {} THEN res.ok = 0
  ELSE /\ res.ok = 1 /\ Sorted(res.F) /\ Goals(res.F, r.goal)
       /\ LET got == Table(res.F, FstEdge)[res.F.n] IN
          /\ Len(got) = Cardinality(want)
          /\ SameBag([d \in want |-> <<FTop>> \o [q \in 1..Len(d) |-> <<P[d[q]].f, P[d[q]].e, NonZero(P[d[q]].fs)>>]], got)
OneOk(r, k) == CASE r.kind = "t2s" -> TreeOk(r, k) [] r.kind = "csplit" -> SplitOk(r, k) [] r.kind = "fst" -> FstOk(r, k) [] OTHER -> FALSE
Accepted ==
  st = "case" =>
    LET r == Trace[l] IN
    IF "crash" \in DOMAIN r THEN FALSE
    ELSE Len(r.res) = r.n /\ \A k \in 1..r.n : OneOk(r, k)
=============================================================================
