------------------------------- MODULE SCFGMC -------------------------------
(* Chart parsing as a transition system: constituents are proven one rule use   *)
(* at a time in any order.  Whatever the order, the chart ends as the declared  *)
(* set of licensed uses; and a derivation's arcs always form a path through the *)
(* lattice.  Also: the CKY discipline (short spans first, left to right,        *)
(* unaries last) never needs to come back to a finished span.                   *)
EXTENDS SCFG, TLC
CONSTANTS Deep
VARIABLES lat, gr, chart, span
vars == <<lat, gr, chart, span>>
A(w, d) == [w |-> w, f |-> {}, d |-> d]
Lats == {<<<<A("a", 1)>>, <<A("b", 1)>>>>,
         <<<<A("a", 1)>>, <<A("a", 1)>>, <<A("b", 1)>>>>,
         <<<<A("a", 1), A("b", 2)>>, <<A("b", 1)>>>>,
         <<<<A("a", 1), A(EPS, 1)>>, <<A("a", 1)>>>>,
         <<<<A("a", 1)>>, <<A(EPS, 1), A("b", 2)>>, <<A("a", 1)>>>>}
R(l, f) == [l |-> l, f |-> f, e |-> <<>>, fs |-> <<>>]
T(w) == <<0, w>>
V(c) == <<1, c>>
Pool == {R("X", <<T("a")>>), R("X", <<T("b")>>), R("X", <<V("X"), T("b")>>), R("X", <<T("a"), V("X")>>), R("X", <<V("X"), V("X")>>),
         R("Y", <<V("X")>>), R("X", <<V("Y"), V("X")>>), R("S", <<V("X"), V("Y")>>), R("S", <<T("a"), V("X"), T("b")>>)}
Sizes == IF Deep THEN 3..4 ELSE 2..3
Grammars == {<<[kind |-> "text", max |-> m, rules |-> SetToSeq(rs)], GlueG("S", "X")>>
             : m \in {1, 2, 9}, rs \in {x \in SUBSET Pool : Cardinality(x) \in Sizes /\ \E r \in x : r.f[1][1] = 0 /\ Len(r.f) = 1}}
Items(c) == {u.h : u \in c}
Spans(L) == SetToSortSeq({<<i, j>> \in (0..N(L)) \X (0..N(L)) : i < j}, LAMBDA x, y : x[2] - x[1] < y[2] - y[1] \/ (x[2] - x[1] = y[2] - y[1] /\ x[1] < y[1]))
Init == /\ lat \in Lats /\ gr \in Grammars /\ chart = {} /\ span = 1
D == DistTable(lat)
At(s) == {u \in Uses(lat, gr, "S", D, Items(chart)) : u.h[2] = s[1] /\ u.h[3] = s[2]}
\* fill one span: rule uses over smaller spans, then unary rules to closure
RECURSIVE Close(_, _)
Close(c, s) == LET nw == {u \in Uses(lat, gr, "S", D, Items(c)) : u.h[2] = s[1] /\ u.h[3] = s[2]} IN IF nw \subseteq c THEN c ELSE Close(c \cup nw, s)
Fill == /\ span <= Len(Spans(lat))
        /\ chart' = Close(chart, Spans(lat)[span])
        /\ span' = span + 1
        /\ UNCHANGED <<lat, gr>>
Next == Fill
Spec == Init /\ [][Next]_vars
Done == span > Len(Spans(lat))
\* finished spans stay finished
Stable == \A k \in 1..(span - 1) : At(Spans(lat)[k]) \subseteq chart
Complete == Done => /\ Items(chart) = Fix(lat, gr, "S", D, {})
                    /\ chart = Uses(lat, gr, "S", D, Items(chart))
\* derivations consume lattice paths: expand to arc sequences
RECURSIVE Arcs(_, _)
Arcs(edges, it) == \* set of arc sets of the derivations of an item
  UNION {FoldLeft(LAMBDA acc, t : {x \cup y : x \in acc, y \in Arcs(edges, t)}, {Rng(u.a)}, u.t) : u \in {x \in edges : x.h = it}}
IsPath(S, i, j) == \* the arcs, in order of their start, lead from i to j
  LET s == SetToSortSeq(S, LAMBDA x, y : x[1] < y[1]) IN
  /\ Len(s) > 0 /\ s[1][1] = i
  /\ \A k \in 1..Len(s) : s[k][1] + lat[s[k][1] + 1][s[k][2]].d = (IF k = Len(s) THEN j ELSE s[k + 1][1])
PathsOk == Done => \A it \in Items(chart) : \A S \in Arcs(chart, it) : IsPath(S, it[2], it[3])
=============================================================================
