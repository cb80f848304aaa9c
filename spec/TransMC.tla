------------------------------- MODULE TransMC -------------------------------
(***************************************************************************)
(* The matching algorithm of the tree-to-string decoder: rules are stored  *)
(* in a prefix tree under the symbols met on a left-to-right walk over the *)
(* source tree; items (subtree, place in the prefix tree, rest of the      *)
(* walk, subtrees left for later) wait in a list in any order.  Checked:   *)
(* when the list is empty, the steps found are exactly those Match allows  *)
(* on the subtrees that are reachable.                                     *)
(* Key = "arity": a node is stored with its number of children.            *)
(* Key = "flat": without (as the decoder used to do) - rejected.           *)
(* Fut = "rev": later work collected in the wrong order - rejected.        *)
(***************************************************************************)
EXTENDS Trans, TLC
CONSTANTS Key, Fut, Deep
VARIABLES tree, rules, todo, seen, found
vars == <<tree, rules, todo, seen, found>>
W1 == <<"w", "a", <<>>>>
Nd(l, ks) == <<"n", l, ks>>
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
D1 == {Nd(l, s) : l \in {"A", "B"}, s \in Seqs({W1}, 2)}
D2(tops) == {Nd(l, s) : l \in tops, s \in Seqs({W1} \cup D1, 2)}
Trees == D2({"A"}) \cup {Nd("A", s) : s \in IF Deep THEN [1..3 -> {W1} \cup D1] ELSE [1..3 -> {W1, Nd("A", <<W1>>), Nd("B", <<W1>>), Nd("B", <<W1, W1>>)}]}
         \cup {Nd("A", <<x>>) : x \in D2({"A", "B"})}
Vars == {<<"v", "A", <<>>>>, <<"v", "B", <<>>>>}
R1 == {Nd(l, s) : l \in {"A", "B"}, s \in Seqs({W1} \cup Vars, 2)}
Small == {Nd("A", <<W1>>), Nd("B", <<W1>>), Nd("B", <<W1, W1>>), Nd("B", <<Nd("A", <<W1>>)>>)}
\* shapes that could be confused: the same walk with the brackets elsewhere
Rules == {Nd("A", s) : s \in Seqs({W1} \cup Vars, 3)} \cup
         {Nd("A", s) : s \in Seqs({W1, <<"v", "B", <<>>>>} \cup {Nd("B", <<W1>>), Nd("B", <<W1, W1>>), Nd("B", <<<<"v", "A", <<>>>>>>), Nd("A", <<<<"v", "B", <<>>>>, W1>>)}, IF Deep THEN 3 ELSE 2)}
LabSym(l, n) == IF Key = "arity" THEN <<"L", l, n>> ELSE <<"L", l, 0>>
\* the walk over a rule
RECURSIVE Walk(_)
Walk(R) == <<LabSym(R[2], Len(R[3]))>> \o
           FoldLeft(LAMBDA acc, x : acc \o (CASE x[1] = "w" -> <<<<"W", x[2], 0>>>> [] x[1] = "v" -> <<<<"V", x[2], 0>>>> [] OTHER -> <<<<"R", x[2], 0>>>> \o Walk(x)), <<>>, R[3])
RW == [k \in 1..Len(rules) |-> Walk(rules[k])]
IsPrefix2(p) == \E k \in 1..Len(rules) : Len(p) <= Len(RW[k]) /\ SubSeq(RW[k], 1, Len(p)) = p
\* item: [top, left, path, rest, fut]; rest: what is still to walk, entries <<start, tree, "in" or "kid">>
Item(t, left) == [top |-> t, left |-> left, path |-> <<>>, rest |-> <<<<left, t, "in">>>>, fut |-> <<>>]
KidsOf(t, left) == LET at == Starts(t, left) IN [k \in 1..Len(t[3]) |-> <<at[k], t[3][k], "kid">>]
Later(f, x) == IF Fut = "rev" THEN <<x>> \o f ELSE Append(f, x)
Succ(s) ==
  LET h == s.rest[1]  t == h[2] IN
  {x \in
    (IF h[3] = "in" THEN {[s EXCEPT !.path = Append(@, LabSym(t[2], Len(t[3]))), !.rest = KidsOf(t, h[1]) \o Tail(@)]}
     ELSE IF t[1] = "w" THEN {[s EXCEPT !.path = Append(@, <<"W", t[2], 0>>), !.rest = Tail(@)]}
     ELSE {[s EXCEPT !.path = Append(@, <<"V", t[2], 0>>), !.rest = Tail(@), !.fut = Later(@, <<h[1], t>>)],
           [s EXCEPT !.path = Append(@, <<"R", t[2], 0>>), !.rest = <<<<h[1], t, "in">>>> \o Tail(@)]})
    : IsPrefix2(x.path)}
Init == /\ tree \in Trees
        /\ \E r \in Rules, q \in Small : rules = IF r = q THEN <<r>> ELSE <<r, q>>
        /\ todo = {Item(tree, 0)} /\ seen = {Item(tree, 0)} /\ found = {}
Take(s) ==
  IF s.rest = <<>>
  THEN LET done == {k \in 1..Len(rules) : RW[k] = s.path}
           new == IF done = {} THEN {} ELSE {Item(x[2], x[1]) : x \in Rng(s.fut)} IN
       /\ found' = found \cup {<<k, s.left, s.top, s.fut>> : k \in done}
       /\ seen' = seen \cup new /\ todo' = (todo \ {s}) \cup (new \ seen) /\ UNCHANGED <<tree, rules>>
  ELSE /\ seen' = seen \cup Succ(s) /\ todo' = (todo \ {s}) \cup (Succ(s) \ seen) /\ UNCHANGED <<tree, rules, found>>
\* the order does not matter; one order is explored (any: Deep would multiply the states)
Next == todo # {} /\ (LET s == CHOOSE x \in todo : TRUE IN Take(s))
Spec == Init /\ [][Next]_vars
\* the declarative side
RECURSIVE Reach(_)
Reach(S) == LET more == S \cup UNION {UNION {UNION {Rng(m) : m \in Match(rules[k], x[2], x[1])} : k \in 1..Len(rules)} : x \in S} IN IF more = S THEN S ELSE Reach(more)
Want == UNION {UNION {{<<k, x[1], x[2], m>> : m \in Match(rules[k], x[2], x[1])} : k \in 1..Len(rules)} : x \in Reach({<<0, tree>>})}
Exact == todo = {} => found = Want
=============================================================================
