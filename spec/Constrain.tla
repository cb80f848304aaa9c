------------------------------ MODULE Constrain ------------------------------
(***************************************************************************)
(* Constraining a translation forest F to a reference L (sentence or       *)
(* lattice), and reading word alignments from derivations.                 *)
(*   F : [n, in, E] as recorded, E[k] = [h, t, f, e, fs, i, j]; node v is  *)
(*       counted from 0, edges from 1; target symbols are strings, "[k]"   *)
(*       stands for the k-th tail                                          *)
(* A derivation is [c |-> <<lhs, f, e>>, fs, s |-> source span,            *)
(*                  t |-> reference span, k |-> sub-derivations]           *)
(***************************************************************************)
EXTENDS SCFG
VarNames == <<"[1]", "[2]", "[3]", "[4]", "[5]">>
IsVar(x) == x \in Rng(VarNames)
VarNo(x) == CHOOSE k \in 1..5 : VarNames[k] = x

\* ways to read the target side e of edge ed from reference node p:
\* <<end, sub-derivations by tail, arcs>>; T holds the tables of the nodes before
RECURSIVE ReadE(_, _, _, _, _, _)
ReadE(L, T, ed, e, p, kids) ==
  (IF e = <<>> THEN {<<p, kids, <<>>>>} ELSE {})
  \cup (IF p < N(L) THEN
          UNION {LET a == L[p + 1][k] IN
                 IF a.w = EPS THEN {<<m[1], m[2], <<<<p, k>>>> \o m[3]>> : m \in ReadE(L, T, ed, e, p + a.d, kids)}
                 ELSE IF e # <<>> /\ Head(e) = a.w THEN {<<m[1], m[2], <<<<p, k>>>> \o m[3]>> : m \in ReadE(L, T, ed, Tail(e), p + a.d, kids)}
                 ELSE {} : k \in 1..Len(L[p + 1])}
        ELSE {})
  \cup (IF e # <<>> /\ IsVar(Head(e)) THEN
          UNION {ReadE(L, T, ed, Tail(e), d.t[2], [kids EXCEPT ![VarNo(Head(e))] = d]) : d \in {x \in T[ed.t[VarNo(Head(e))] + 1] : x.t[1] = p}}
        ELSE {})
Nil == [c |-> <<>>, fs |-> {}, s |-> <<>>, t |-> <<0, 0>>, a |-> <<>>, k |-> <<>>]
NodeTable(F, L, T, v) ==
  UNION {LET ed == F.E[F.in[v][x]] IN
    UNION {{[c |-> <<ed.lhs, ed.f, ed.e>>, fs |-> AddFeats(Rng(ed.fs), ArcFeats(L, m[3])), s |-> <<ed.i, ed.j>>, t |-> <<p, m[1]>>, a |-> m[3], k |-> m[2]]
            : m \in (IF Len(ed.e) = 1 /\ IsVar(ed.e[1]) THEN {<<d.t[2], <<d>>, <<>>>> : d \in {y \in T[ed.t[1] + 1] : y.t[1] = p}} \* renames only
                    ELSE ReadE(L, T, ed, ed.e, p, [q \in 1..Len(ed.t) |-> Nil]))} : p \in 0..N(L)}
    : x \in 1..Len(F.in[v])}
\* F's nodes come in topological order
Tables(F, L) == FoldLeft(LAMBDA T, v : Append(T, NodeTable(F, L, T, v)), <<>>, [v \in 1..F.n |-> v])
Constrained(F, L) == {d \in Tables(F, L)[F.n] : d.t = <<0, N(L)>>}

\* without the arcs (what a derivation of the result shows), and without reference spans
RECURSIVE NoArcs(_)
NoArcs(d) == [c |-> d.c, fs |-> d.fs, s |-> d.s, t |-> d.t, k |-> [q \in 1..Len(d.k) |-> NoArcs(d.k[q])]]
RECURSIVE NoSpans(_)
NoSpans(d) == [c |-> d.c, s |-> d.s, k |-> [q \in 1..Len(d.k) |-> NoSpans(d.k[q])]]
RECURSIVE FeatSum(_)
FeatSum(d) == FoldLeft(LAMBDA s, x : AddFeats(s, FeatSum(x)), d.fs, d.k)
RECURSIVE Prods(_)
Prods(ss) == IF ss = <<>> THEN {<<>>} ELSE LET r == Prods(Tail(ss)) IN {<<x>> \o y : x \in Head(ss), y \in r}

------------------------------------------------------------------------------
(* Alignment of a derivation: words of one rule are linked with each other.  *)
(* Positions count the words of the derivation's own source / target yield.  *)
RECURSIVE SrcLen(_)
RECURSIVE SumLen(_)
SumLen(ks) == IF ks = <<>> THEN 0 ELSE SrcLen(Head(ks)) + SumLen(Tail(ks))
SrcLen(d) == Cardinality({q \in 1..Len(d.c[2]) : d.c[2][q][1] = 0}) + SumLen(d.k)
RECURSIVE TrgLen(_)
RECURSIVE SumTrg(_)
SumTrg(ks) == IF ks = <<>> THEN 0 ELSE TrgLen(Head(ks)) + SumTrg(Tail(ks))
TrgLen(d) == Cardinality({q \in 1..Len(d.c[3]) : ~IsVar(d.c[3][q])}) + SumTrg(d.k)
NthVar(f, q) == Cardinality({z \in 1..q : f[z][1] = 1})
\* position of the q-th symbol of a rule's sides, the constituent starting at o
RECURSIVE SrcAt(_, _, _)
SrcAt(d, q, o) == IF q = 1 THEN o ELSE SrcAt(d, q - 1, o) + (IF d.c[2][q - 1][1] = 0 THEN 1 ELSE SrcLen(d.k[NthVar(d.c[2], q - 1)]))
RECURSIVE TrgAt(_, _, _)
TrgAt(d, q, o) == IF q = 1 THEN o ELSE TrgAt(d, q - 1, o) + (IF IsVar(d.c[3][q - 1]) THEN TrgLen(d.k[VarNo(d.c[3][q - 1])]) ELSE 1)
RECURSIVE Links(_, _, _)
Links(d, so, to) ==
  {<<SrcAt(d, a, so), TrgAt(d, b, to)>> : a \in {q \in 1..Len(d.c[2]) : d.c[2][q][1] = 0}, b \in {q \in 1..Len(d.c[3]) : ~IsVar(d.c[3][q])}}
  \cup UNION {LET fq == CHOOSE q \in 1..Len(d.c[2]) : d.c[2][q][1] = 1 /\ NthVar(d.c[2], q) = k
                  eq == CHOOSE q \in 1..Len(d.c[3]) : d.c[3][q] = VarNames[k] IN
              Links(d.k[k], SrcAt(d, fq, so), TrgAt(d, eq, to)) : k \in 1..Len(d.k)}
\* most probable links under equal weights: for every target word the source words linked by most derivations
Majority(al, ls) == \* al: the reported links, ls: a sequence of the link sets of the derivations
  LET cnt(x) == Cardinality({q \in DOMAIN ls : x \in ls[q]})
      all == UNION {ls[q] : q \in DOMAIN ls}
      best(b) == {x \in all : x[2] = b /\ \A y \in all : y[2] = b => cnt(y) <= cnt(x)} IN
  /\ al \subseteq UNION {best(x[2]) : x \in all}
  /\ \A x \in all : al \cap best(x[2]) # {}
=============================================================================
