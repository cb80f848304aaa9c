-------------------------------- MODULE SCFG --------------------------------
(***************************************************************************)
(* What a set of synchronous grammars licenses over a word lattice.        *)
(*   Lat : sequence of nodes, each a sequence of arcs [w, f, d]            *)
(*         (label, features <<name, value>>, length);  "*EPS*" is empty    *)
(*   G   : sequence of grammars [kind, max, rules]                         *)
(*         kind "text" (span limit max), "glue" (i = 0 only),              *)
(*         "pass" (span limit 3)                                           *)
(*   rule: [l |-> lhs, f |-> <<<<0, word>> | <<1, category>>>>, e, fs]     *)
(* An item <<cat, i, j>> is a proven constituent; an edge is a rule use.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
EPS == "*EPS*"
Rng(s) == {s[i] : i \in 1..Len(s)}
Far == 99999999

------------------------------------------------------------------------------
(* Distances: fewest arcs; a node that cannot be reached from i counts as far as the *)
(* next reachable one to its right.                                                  *)
N(Lat) == Len(Lat)
Succ(Lat, p) == IF p < N(Lat) THEN {p + a.d : a \in Rng(Lat[p + 1])} ELSE {}
RECURSIVE Layers(_, _, _, _)
Layers(Lat, seen, cur, k) ==  \* function node -> distance, as a set of pairs
  LET nxt == (UNION {Succ(Lat, p) : p \in cur}) \ {x[1] : x \in seen} IN
  IF nxt = {} THEN seen ELSE Layers(Lat, seen \cup {<<q, k>> : q \in nxt}, nxt, k + 1)
DistFrom(Lat, i) ==
  LET known == Layers(Lat, {}, {i}, 1)
      raw == [q \in 0..N(Lat) |-> IF \E x \in known : x[1] = q THEN (CHOOSE x \in known : x[1] = q)[2] ELSE Far]
      up(q) == {r \in q..N(Lat) : raw[r] < Far} IN
  [q \in 0..N(Lat) |-> IF up(q) = {} THEN Far ELSE raw[CHOOSE r \in up(q) : \A s \in up(q) : r <= s]]
DistTable(Lat) == [i \in 0..N(Lat) |-> DistFrom(Lat, i)]

Allowed(g, i, j, D) == CASE g.kind = "glue" -> i = 0
                         [] OTHER -> (IF i = j THEN 0 ELSE D[i][j]) <= g.max

------------------------------------------------------------------------------
(* Ways to match the source side f from node p (start i), over proven items. *)
(* A match is <<end, tails, arcs>>.                                          *)
RECURSIVE MatchFrom(_, _, _, _, _, _, _)
MatchFrom(Lat, g, D, items, i, p, f) ==
  (IF f = <<>> THEN {<<p, <<>>, <<>>>>} ELSE {})
  \cup \* an arc: the empty word, or the next word
    (IF p < N(Lat) /\ Allowed(g, i, p + 1, D) THEN
       UNION {LET a == Lat[p + 1][k] IN
              IF a.w = EPS THEN {<<m[1], m[2], <<<<p, k>>>> \o m[3]>> : m \in MatchFrom(Lat, g, D, items, i, p + a.d, f)}
              ELSE IF f # <<>> /\ Head(f) = <<0, a.w>> THEN {<<m[1], m[2], <<<<p, k>>>> \o m[3]>> : m \in MatchFrom(Lat, g, D, items, i, p + a.d, Tail(f))}
              ELSE {} : k \in 1..Len(Lat[p + 1])}
     ELSE {})
  \cup \* a constituent
    (IF f # <<>> /\ Head(f)[1] = 1 THEN
       UNION {{<<m[1], <<it>> \o m[2], m[3]>> : m \in MatchFrom(Lat, g, D, items, i, it[3], Tail(f))}
              : it \in {x \in items : x[1] = Head(f)[2] /\ x[2] = p /\ Allowed(g, i, x[3], D)}}
     ELSE {})
Unary(r) == Len(r.f) = 1 /\ r.f[1][1] = 1
\* all uses of the rules over the given items; an edge is [h, g, r, t, a]
GoalRule(goal) == [l |-> "Goal", f |-> <<<<1, goal>>>>, e |-> <<"[1]">>, fs |-> <<>>]
Uses(Lat, G, goal, D, items) ==
  UNION {UNION {LET g == G[gi]  r == g.rules[ri] IN
     IF Unary(r) THEN {[h |-> <<r.l, it[2], it[3]>>, g |-> gi, r |-> ri, t |-> <<it>>, a |-> <<>>] : it \in {x \in items : x[1] = r.f[1][2]}}
     ELSE UNION {{[h |-> <<r.l, i, m[1]>>, g |-> gi, r |-> ri, t |-> m[2], a |-> m[3]]
                  : m \in {x \in MatchFrom(Lat, g, D, items, i, i, r.f) : x[1] > i /\ Allowed(g, i, x[1], D)}}
                 : i \in {x \in 0..(N(Lat) - 1) : Allowed(g, x, x, D)}}
     : ri \in 1..Len(G[gi].rules)} : gi \in 1..Len(G)}
  \cup {[h |-> <<"Goal", 0, N(Lat)>>, g |-> 0, r |-> 0, t |-> <<it>>, a |-> <<>>] : it \in {x \in items : x = <<goal, 0, N(Lat)>> /\ N(Lat) > 0}}
RECURSIVE Fix(_, _, _, _, _)
Fix(Lat, G, goal, D, items) ==
  LET new == {u.h : u \in Uses(Lat, G, goal, D, items)} IN
  IF new \subseteq items THEN items ELSE Fix(Lat, G, goal, D, items \cup new)
\* edges that take part in a derivation of the goal
RECURSIVE Below(_, _)
Below(edges, items) == LET more == items \cup UNION {Rng(u.t) : u \in {x \in edges : x.h \in items}} IN
                       IF more = items THEN {x \in edges : x.h \in items} ELSE Below(edges, more)
LicensedForest(Lat, G, goal) ==
  LET D == DistTable(Lat)
      items == Fix(Lat, G, goal, D, {})
      root == <<"Goal", 0, N(Lat)>> IN
  IF root \in items THEN Below(Uses(Lat, G, goal, D, items), {root}) ELSE {}

------------------------------------------------------------------------------
(* Content of an edge as observed: head item, rule, tails, features            *)
RECURSIVE AddFeats(_, _)
AddFeats(a, b) == \* sum of two feature sets
  LET names == {x[1] : x \in a} \cup {x[1] : x \in b}
      v(s, n) == IF \E x \in s : x[1] = n THEN (CHOOSE x \in s : x[1] = n)[2] ELSE 0 IN
  {y \in {<<n, v(a, n) + v(b, n)>> : n \in names} : y[2] # 0}
ArcFeats(Lat, arcs) == FoldLeft(LAMBDA s, x : AddFeats(s, Rng(Lat[x[1] + 1][x[2]].f)), {}, arcs)
RuleOf(G, goal, u) == IF u.g = 0 THEN GoalRule(goal) ELSE G[u.g].rules[u.r]
Content(Lat, G, goal, u) ==
  LET r == RuleOf(G, goal, u) IN
  <<u.h, r.f, r.e, u.t, AddFeats(Rng(r.fs), ArcFeats(Lat, u.a))>>

(* The grammars added on request.                                             *)
GlueG(goal, nt) == [kind |-> "glue", max |-> 0, rules |->
  <<[l |-> goal, f |-> <<<<1, nt>>>>, e |-> <<"[1]">>, fs |-> <<>>],
    [l |-> goal, f |-> <<<<1, goal>>, <<1, nt>>>>, e |-> <<"[1]", "[2]">>, fs |-> <<<<"Glue", 1000>>>>]>>]
PassG(Lat, nt) == LET ws == SetToSeq({a.w : a \in UNION {Rng(Lat[p]) : p \in 1..Len(Lat)}} \ {EPS}) IN
  [kind |-> "pass", max |-> 3, rules |->
    [k \in 1..Len(ws) |-> [l |-> nt, f |-> <<<<0, ws[k]>>>>, e |-> <<ws[k]>>, fs |-> <<<<"PassThrough", 1000>>>>]]]
=============================================================================
