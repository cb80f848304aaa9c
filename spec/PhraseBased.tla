----------------------------- MODULE PhraseBased -----------------------------
(***************************************************************************)
(* Phrase-based translation of a word lattice.                             *)
(*   L : sequence of nodes, each a sequence of arcs [w, d]                 *)
(*   T : sequence of table entries [f |-> words, e |-> words, fs]          *)
(*   D : distortion limit                                                  *)
(* A step covers the positions i..j-1, none covered before, by a path of   *)
(* arcs that spells the source side of an entry; it may start at most D    *)
(* positions after the first uncovered one.  A derivation is a sequence of *)
(* steps covering everything.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Rng(s) == {s[i] : i \in 1..Len(s)}
N(L) == Len(L)
Gap(L, cov) == CHOOSE g \in 0..N(L) : g \notin cov /\ \A x \in 0..(g - 1) : x \in cov
RECURSIVE PathsFor(_, _, _)
PathsFor(L, f, p) == \* ways to read f from node p: <<end, arcs>>
  IF f = <<>> THEN {<<p, <<>>>>}
  ELSE IF p >= N(L) THEN {}
  ELSE UNION {{<<x[1], <<k>> \o x[2]>> : x \in PathsFor(L, Tail(f), p + L[p + 1][k].d)} : k \in {q \in 1..Len(L[p + 1]) : L[p + 1][q].w = Head(f)}}
Starts(L, D, cov) == IF Cardinality(cov) = N(L) THEN {}
                     ELSE {i \in Gap(L, cov)..(N(L) - 1) : i <= Gap(L, cov) + D /\ i \notin cov}
Steps(L, T, D, cov) ==
  UNION {UNION {{[r |-> k, i |-> i, j |-> x[1], a |-> x[2]] : x \in {y \in PathsFor(L, T[k].f, i) : \A q \in i..(y[1] - 1) : q \notin cov}}
                : k \in 1..Len(T)} : i \in Starts(L, D, cov)}
RECURSIVE Completions(_, _, _, _)
Completions(L, T, D, cov) ==
  IF Cardinality(cov) = N(L) THEN {<<>>}
  ELSE UNION {{<<s>> \o rest : rest \in Completions(L, T, D, cov \cup (s.i..(s.j - 1)))} : s \in Steps(L, T, D, cov)}
Derivs(L, T, D) == IF N(L) = 0 THEN {} ELSE Completions(L, T, D, {})

(* Words without an entry of their own may be copied. *)
Words(L) == {a.w : a \in UNION {Rng(L[p]) : p \in 1..Len(L)}}
Missing(L, T) == {w \in Words(L) : \A k \in 1..Len(T) : T[k].f # <<w>>}
WithCopies(L, T) == T \o SetToSeq({[f |-> <<w>>, e |-> <<w>>, fs |-> <<<<"PassThrough", 1000>>>>] : w \in Missing(L, T)})

(* What a derivation shows: its steps in the order of application. *)
Shown(T, d) == [k \in 1..Len(d) |-> <<d[k].i, d[k].j, T[d[k].r].f, T[d[k].r].e, {x \in Rng(T[d[k].r].fs) : x[2] # 0}>>]
=============================================================================
