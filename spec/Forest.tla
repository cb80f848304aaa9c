------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* Derivation forests.  A forest F is a record                             *)
(*   n : number of nodes (0 .. n-1, goal n-1)                              *)
(*   E : sequence of edges [h |-> head, t |-> tails, e |-> target side,    *)
(*       f |-> feature values];  a target symbol > 0 is a word, 0, -1, -2  *)
(*       stand for the yield of the first, second, third tail.             *)
(* Edges are known by their position - 1.  A derivation is a tree          *)
(* <<edge, subtree, ...>>.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Rng(s) == {s[i] : i \in 1..Len(s)}
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* sum of w(x) over a finite set
SumOver(S, w(_)) == FoldSet(LAMBDA x, a : a + w(x), 0, S)
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE Prod(_)
Prod(ss) == IF ss = <<>> THEN {<<>>}
            ELSE LET rest == Prod(Tail(ss)) IN {<<x>> \o r : x \in Head(ss), r \in rest}

EdgeIds(F) == 0..(Len(F.E) - 1)
Ed(F, i) == F.E[i + 1]
InE(F, v) == {i \in EdgeIds(F) : Ed(F, i).h = v}

\* concatenation of the words a target side stands for, given the yields of its variables
RECURSIVE Subst(_, _)
Subst(e, ys) == IF e = <<>> THEN <<>>
                ELSE (IF Head(e) > 0 THEN <<Head(e)>> ELSE ys[1 - Head(e)]) \o Subst(Tail(e), ys)

VecAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Dot(a, b) == FoldLeft(LAMBDA x, i : x + a[i] * b[i], 0, [i \in 1..Len(a) |-> i])

\* a derivation: tree, yield, features, source yield when the edges carry one
Mk(F, i, kids) ==
  LET ed == Ed(F, i) IN
  [ t |-> <<i>> \o [k \in 1..Len(kids) |-> kids[k].t],
    y |-> Subst(ed.e, [k \in 1..Len(kids) |-> kids[k].y]),
    f |-> FoldLeft(LAMBDA acc, d : VecAdd(acc, d.f), ed.f, kids) ]

\* nodes in an order in which tails precede heads (nodes on cycles are left out)
RECURSIVE TopoFrom(_, _)
TopoFrom(F, done) ==
  LET ready == {v \in 0..(F.n - 1) : v \notin Rng(done) /\ \A i \in InE(F, v) : Rng(Ed(F, i).t) \subseteq Rng(done)} IN
  IF ready = {} THEN done
  ELSE TopoFrom(F, done \o SetToSortSeq(ready, <))
TopoOrder(F) == TopoFrom(F, <<>>)

\* table of the derivations of every node
DerivTable(F) ==
  FoldLeft(LAMBDA T, v :
     [T EXCEPT ![v + 1] = UNION { {Mk(F, i, kids) : kids \in Prod([k \in 1..Len(Ed(F, i).t) |-> T[Ed(F, i).t[k] + 1]])} : i \in InE(F, v) }],
     [v \in 1..F.n |-> {}], TopoOrder(F))
Derivations(F) == IF F.n = 0 THEN {} ELSE DerivTable(F)[F.n]

\* number of occurrences of edge i in a tree
RECURSIVE Occ(_, _)
Occ(i, t) == (IF t[1] = i THEN 1 ELSE 0) + SumSeq([k \in 1..(Len(t) - 1) |-> Occ(i, t[k + 1])])
RECURSIVE TreeEdges(_)
TreeEdges(t) == {t[1]} \cup UNION {TreeEdges(t[k]) : k \in 2..Len(t)}
\* sum/product of a value attached to edges
RECURSIVE TreeSum(_, _)
TreeSum(w, t) == w[t[1] + 1] + SumSeq([k \in 1..(Len(t) - 1) |-> TreeSum(w, t[k + 1])])
RECURSIVE TreeProd(_, _)
TreeProd(w, t) == w[t[1] + 1] * FoldLeft(LAMBDA a, b : a * b, 1, [k \in 1..(Len(t) - 1) |-> TreeProd(w, t[k + 1])])
RECURSIVE TreeSize(_)
TreeSize(t) == 1 + SumSeq([k \in 1..(Len(t) - 1) |-> TreeSize(t[k + 1])])

------------------------------------------------------------------------------
(* A dumped forest D of the implementation: the same plus redundant links. *)
WellFormed(D) ==
  LET N == D.n  M == Len(D.E) IN
  /\ \A v \in 1..N : D.ids[v] = v - 1
  /\ \A i \in 1..M : D.eids[i] = i - 1
  /\ \A i \in 1..M : /\ D.E[i].h \in 0..(N - 1)
                     /\ \A k \in 1..Len(D.E[i].t) : D.E[i].t[k] \in 0..(N - 1) /\ D.E[i].t[k] < D.E[i].h
  \* incidence lists are exactly the inverse of the edges
  /\ \A v \in 1..N : /\ Rng(D.in[v]) = {i \in 0..(M - 1) : D.E[i + 1].h = v - 1}
                     /\ Len(D.in[v]) = Cardinality(Rng(D.in[v]))
                     /\ Rng(D.out[v]) = {i \in 0..(M - 1) : (v - 1) \in Rng(D.E[i + 1].t)}
Useful(D) ==  \* every node and edge takes part in a complete derivation
  D.n > 0 => LET T == DerivTable([n |-> D.n, E |-> D.E]) IN
             LET used == UNION {TreeEdges(d.t) : d \in T[D.n]} IN
               /\ used = 0..(Len(D.E) - 1)
               /\ \A v \in 1..D.n : v = D.n \/ \E i \in used : (v - 1) \in Rng(D.E[i + 1].t)
\* trees over a dump, with edges renamed to the identity they carry
RECURSIVE Rename(_, _)
Rename(D, t) == <<D.E[t[1] + 1].id>> \o [k \in 1..(Len(t) - 1) |-> Rename(D, t[k + 1])]
DumpTrees(D) == {Rename(D, d.t) : d \in Derivations([n |-> D.n, E |-> D.E])}
=============================================================================
