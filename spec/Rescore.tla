------------------------------- MODULE Rescore -------------------------------
(***************************************************************************)
(* Rescoring a forest with models whose value depends on the whole yield.  *)
(*  - what each model says about a complete yield                          *)
(*  - the derivations of a recorded forest [n, in, E] and their scores     *)
(* Values are integers (thousandths).                                      *)
(***************************************************************************)
EXTENDS SCFG
VarNames == <<"[1]", "[2]", "[3]", "[4]", "[5]">>
IsVar(x) == x \in Rng(VarNames)
VarNo(x) == CHOOSE k \in 1..5 : VarNames[k] = x
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
LastK(s, k) == IF Len(s) <= k THEN s ELSE SubSeq(s, Len(s) - k + 1, Len(s))

------------------------------------------------------------------------------
(* Backoff n-gram model m: [order, p, b], p and b functions on word sequences. *)
Know(m, w) == IF <<w>> \in DOMAIN m.p THEN w ELSE "<unk>"
RECURSIVE LogP(_, _, _)
LogP(m, h, w) ==
  IF h \o <<w>> \in DOMAIN m.p THEN m.p[h \o <<w>>]
  ELSE IF h = <<>> THEN -100000
  ELSE (IF h \in DOMAIN m.b THEN m.b[h] ELSE 0) + LogP(m, Tail(h), w)
\* log probability of position k of the sequence s given what precedes it
At(m, s, k) == LogP(m, LastK(SubSeq(s, 1, k - 1), m.order - 1), s[k])
Sentence(m, s) == SumSeq([k \in 1..(Len(s) - 1) |-> At(m, s, k + 1)])   \* s starts with <s>
\* a class model replaces words by classes and pays for emitting the word
ClassOf(m, w) == IF m.cls = <<>> \/ w \in {"<s>", "</s>"} THEN <<w, 0>>
                 ELSE LET S == {x \in Rng(m.cls) : x[1] = w} IN IF S = {} THEN <<"<unk>", 0>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x[2], x[3]>>
LMFeats(m, y) ==
  LET ys == IF m.marked THEN y ELSE <<"<s>">> \o y \o <<"</s>">>
      cs == [k \in 1..Len(ys) |-> ClassOf(m, ys[k])]
      s == [k \in 1..Len(ys) |-> Know(m, cs[k][1])] IN
  { <<m.name, Sentence(m, s)>>,
    <<m.name \o "_OOV", 1000 * Cardinality({k \in 1..Len(s) : s[k] = "<unk>"})>>,
    <<m.name \o "_Emit", SumSeq([k \in 1..Len(cs) |-> cs[k][2]])>> }
\* n-gram indicators: every n-gram that ends at a word of y or at the end marker
Prefix == <<"U:", "B:", "T:", "4:", "5:">>
RECURSIVE Glue(_, _)
Glue(s, sep) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Glue(Tail(s), sep)
NgramFeats(m, y) ==
  LET s == [k \in 1..(Len(y) + 2) |-> IF k = 1 THEN "<s>" ELSE IF k = Len(y) + 2 THEN "</s>"
              ELSE IF m.cls = <<>> THEN y[k - 1] ELSE IF \E x \in Rng(m.cls) : x[1] = y[k - 1] THEN (CHOOSE x \in Rng(m.cls) : x[1] = y[k - 1])[2] ELSE "<unk>"]
      spans == {<<a, b>> \in (1..Len(s)) \X (2..Len(s)) : a <= b /\ b - a < m.order}
      nm(x) == m.name \o Prefix[x[2] - x[1] + 1] \o Glue(SubSeq(s, x[1], x[2]), m.sep)
      names == {nm(x) : x \in spans} IN
  {<<q, 1000 * Cardinality({x \in spans : nm(x) = q})>> : q \in names}
WordFeats(y) == {<<"WordPenalty", -((434294 * Len(y)) \div 1000)>>}
NonZero(S) == {x \in S : x[2] # 0}
\* models in order; a later one of the same name replaces the values
Fires(m, y) == CASE m.kind = "lm" -> LMFeats(m, y)
                 [] m.kind = "ngram" -> NgramFeats(m, y)
                 [] OTHER -> WordFeats(y)
AllFires(ms, y) == NonZero(UNION {Fires(ms[k], y) : k \in 1..Len(ms)})

------------------------------------------------------------------------------
(* Derivations of a recorded forest: [t |-> tree, y |-> yield, f |-> features]. *)
RECURSIVE Yield(_, _)
Yield(e, ys) == IF e = <<>> THEN <<>>
                ELSE (IF IsVar(Head(e)) THEN ys[VarNo(Head(e))] ELSE <<Head(e)>>) \o Yield(Tail(e), ys)
RECURSIVE Prods(_)
Prods(ss) == IF ss = <<>> THEN {<<>>} ELSE LET r == Prods(Tail(ss)) IN {<<x>> \o y : x \in Head(ss), y \in r}
Node(F, T, v) ==
  UNION {LET ed == F.E[F.in[v][x]] IN
    {[t |-> <<<<ed.lhs, ed.f, ed.e, ed.i, ed.j>>, [q \in 1..Len(kids) |-> kids[q].t]>>,
      y |-> Yield(ed.e, [q \in 1..Len(kids) |-> kids[q].y]),
      f |-> FoldLeft(LAMBDA s, d : AddFeats(s, d.f), Rng(ed.fs), kids)]
     : kids \in Prods([q \in 1..Len(ed.t) |-> T[ed.t[q] + 1]])}
    : x \in 1..Len(F.in[v])}
Derivs(F) == FoldLeft(LAMBDA T, v : Append(T, Node(F, T, v)), <<>>, [v \in 1..F.n |-> v])[F.n]
Number(F) == FoldLeft(LAMBDA T, v : Append(T, FoldLeft(LAMBDA s, x : s + FoldLeft(LAMBDA p, z : p * T[z + 1], 1, F.E[x].t), 0, F.in[v])), <<>>, [v \in 1..F.n |-> v])[F.n]

(* WordPenalty is not exact: it is compared on its own, up to rounding.         *)
Exact(S) == {x \in S : x[2] # 0 /\ x[1] # "WordPenalty"}
WP(S) == LET q == {x \in S : x[1] = "WordPenalty"} IN IF q = {} THEN 0 ELSE (CHOOSE x \in q : TRUE)[2]
Key(d) == <<d.t, d.y, Exact(d.f)>>
\* what the rescored derivations should be
Rescored(base, ms) == {[o EXCEPT !.f = AddFeats(o.f, AllFires(ms, o.y))] : o \in Derivs(base)}
\* want: those.  got: the rescored forest.
Faithful(base, want, got) ==
  LET gd == Derivs(got) IN
  /\ got.nh = [v \in 1..got.n |-> v - 1]               \* no two nodes share an identity
  /\ Number(got) <= Number(base)                       \* nothing more than once
  /\ Number(base) = Cardinality(want) => Number(got) = Cardinality(gd)
  /\ gd # {}
  /\ {Key(d) : d \in gd} \subseteq {Key(o) : o \in want}
  /\ \A d \in gd : \E o \in want : Key(o) = Key(d) /\ WP(d.f) - WP(o.f) \in -30..30
Complete(base, want, got) == {Key(d) : d \in want} = {Key(d) : d \in Derivs(got)} /\ Number(got) = Number(base)
\* edge scores are the weighted features (64ths against thousandths)
Scored(w, got) == \A k \in 1..Len(got.E) :
  LET ed == got.E[k]
      s == FoldLeft(LAMBDA a, x : a + x[2] * (IF x[1] \in DOMAIN w THEN w[x[1]] ELSE 0), 0, ed.fs) IN \* w in eighths
  LET d == s * 8 - ed.lp * 1000 IN d \in -3000..3000

------------------------------------------------------------------------------
(* Incremental search: one translation, its score over the rule features, the   *)
(* language model of the bare word sequence and the unknown words (in 8000ths). *)
W(w, n) == IF n \in DOMAIN w THEN w[n] ELSE 0
Bare(m, y) == LET s == [k \in 1..Len(y) |-> Know(m, y[k])]
                  from == IF s # <<>> /\ s[1] = "<s>" THEN 2 ELSE 1 IN
  SumSeq([k \in 1..Len(s) |-> IF k < from THEN 0 ELSE At(m, s, k)])
Total(m, w, o) == FoldSet(LAMBDA x, a : a + x[2] * W(w, x[1]), 0, o.f)
                  + W(w, "KLanguageModel") * Bare(m, o.y)
                  + 1000 * W(w, "KLanguageModel_OOV") * Cardinality({k \in 1..Len(o.y) : Know(m, o.y[k]) = "<unk>"})
Incremental(base, m, w, x) ==
  LET D == Derivs(base)  tot == {<<o.y, Total(m, w, o)>> : o \in D}
      near(a, b) == a - b \in -200..200 IN
  /\ \E p \in tot : p[1] = x.words /\ near(p[2], x.score)
  /\ x.full => \A p \in tot : p[2] <= x.score + 200
=============================================================================
