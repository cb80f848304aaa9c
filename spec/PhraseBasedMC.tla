---------------------------- MODULE PhraseBasedMC ----------------------------
(* The search as a work list: states (coverage, start, position, words read) are *)
(* taken in any order (one order for longer inputs); a completed phrase becomes a node and is joined to the    *)
(* node of the coverage it extends.  However the list is served, the forest of   *)
(* the full coverage has exactly the declared derivations.                       *)
EXTENDS PhraseBased, TLC
CONSTANTS Deep, Overwrite   \* Overwrite: the first phrase of a coverage replaces an existing node
VARIABLES lat, tab, dist, todo, done, node, forest, size
vars == <<lat, tab, dist, todo, done, node, forest, size>>
A(w, d) == [w |-> w, d |-> d]
Lats == {<<<<A("a", 1)>>, <<A("b", 1)>>>>,
         <<<<A("a", 1), A("b", 1)>>, <<A("b", 1)>>>>,
         <<<<A("a", 1), A("c", 2)>>, <<A("b", 1)>>>>}
        \cup (IF Deep THEN {<<<<A("a", 1)>>, <<A("a", 1)>>, <<A("b", 1)>>>>, <<<<A("a", 1), A("a", 2)>>, <<A("b", 2), A("b", 1)>>, <<A("b", 1)>>>>} ELSE {})
P(f) == [f |-> f, e |-> f, fs |-> <<>>]
Tabs == {<<P(<<"a">>), P(<<"b">>)>>, <<P(<<"a">>), P(<<"b">>), P(<<"a", "b">>)>>, <<P(<<"a">>), P(<<"b">>), P(<<"c">>), P(<<"b">>)>>, <<P(<<"a">>)>>}
        \cup (IF Deep THEN {<<P(<<"a">>), P(<<"b">>), P(<<"a", "b">>), P(<<"a", "a">>)>>} ELSE {})
Stems == {<<>>} \cup UNION {{SubSeq(tab[k].f, 1, n) : n \in 1..Len(tab[k].f)} : k \in 1..Len(tab)}
Data(f) == {k \in 1..Len(tab) : tab[k].f = f}
Cont(cov) == {[cov |-> cov, i |-> i, j |-> i, f |-> <<>>, a |-> <<>>] : i \in Starts(lat, dist, cov)}
Init == /\ lat \in Lats /\ tab \in Tabs /\ dist \in 0..2
        /\ todo = Cont({}) /\ done = {{}} /\ node = [c \in {{}} |-> 0] /\ forest = {} /\ size = 0
Take == \E s \in (IF N(lat) > 2 /\ todo # {} THEN {CHOOSE x \in todo : TRUE} ELSE todo) :
  LET cov2 == s.cov \cup (s.i..(s.j - 1))
      left == node[s.cov] = 0
      has == cov2 \in DOMAIN node
      more == IF s.j = N(lat) THEN {} ELSE
              {t \in {[s EXCEPT !.j = s.j + lat[s.j + 1][k].d, !.f = Append(s.f, lat[s.j + 1][k].w), !.a = Append(s.a, k)] : k \in 1..Len(lat[s.j + 1])}
               : t.f \in Stems /\ \A q \in t.i..(t.j - 1) : q \notin t.cov}
      ph == size + 1          \* the node of the phrase
      steps(h) == {[h |-> h, t |-> <<>>, s |-> [r |-> k, i |-> s.i, j |-> s.j, a |-> s.a]] : k \in Data(s.f)} IN
  IF Data(s.f) = {} THEN todo' = (todo \ {s}) \cup more /\ UNCHANGED <<lat, tab, dist, done, node, forest, size>>
  ELSE /\ todo' = (todo \ {s}) \cup more \cup (IF cov2 \in done THEN {} ELSE Cont(cov2))
       /\ done' = done \cup {cov2}
       /\ IF left /\ (Overwrite \/ ~has)
          THEN node' = [c \in DOMAIN node \cup {cov2} |-> IF c = cov2 THEN ph ELSE node[c]] /\ forest' = forest \cup steps(ph) /\ size' = ph
          ELSE IF left THEN node' = node /\ forest' = forest \cup steps(node[cov2]) /\ size' = size
          ELSE LET h == IF has THEN node[cov2] ELSE ph + 1 IN
               /\ node' = [c \in DOMAIN node \cup {cov2} |-> IF c = cov2 THEN h ELSE node[c]]
               /\ forest' = forest \cup steps(ph) \cup {[h |-> h, t |-> <<node[s.cov], ph>>, s |-> <<>>]}
               /\ size' = IF has THEN ph ELSE ph + 1
       /\ UNCHANGED <<lat, tab, dist>>
Next == Take
Spec == Init /\ [][Next]_vars
RECURSIVE Read(_)
Read(v) == UNION {IF e.t = <<>> THEN {<<e.s>>} ELSE {x \o y : x \in Read(e.t[1]), y \in Read(e.t[2])} : e \in {x \in forest : x.h = v}}
RECURSIVE NumD(_)
NumD(v) == FoldSet(LAMBDA e, n : n + (IF e.t = <<>> THEN 1 ELSE NumD(e.t[1]) * NumD(e.t[2])), 0, {x \in forest : x.h = v})
Goal == 0..(N(lat) - 1)
Exact == todo = {} =>
   LET want == Derivs(lat, tab, dist) IN
   IF want = {} THEN Goal \notin DOMAIN node ELSE Goal \in DOMAIN node /\ Read(node[Goal]) = want /\ NumD(node[Goal]) = Cardinality(want)
\* nothing outside the declared derivations is ever reachable
Sound == \A cov \in DOMAIN node \ {{}} : \A d \in Read(node[cov]) : /\ UNION {d[k].i..(d[k].j - 1) : k \in 1..Len(d)} = cov
                                                             /\ \A k \in 1..Len(d) : d[k] \in Steps(lat, tab, dist, UNION {d[q].i..(d[q].j - 1) : q \in 1..(k - 1)})
=============================================================================
