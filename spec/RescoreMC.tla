------------------------------ MODULE RescoreMC ------------------------------
(***************************************************************************)
(* Rescoring as a transition system.  A bigram model needs the first and   *)
(* last word of every constituent.  Nodes are processed bottom-up; a node  *)
(* pops candidates <<edge, ranks of the tails>> in ANY order (the order is *)
(* the business of the scores), hands each to the output node with the     *)
(* same state, and offers successors by one of three rules:                *)
(*  1: all neighbours not offered before   2: neighbours up to the first   *)
(*  non-zero rank   3: neighbours all of whose predecessors were popped    *)
(* The output nodes of an input node may be ranked in any order.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS Limits, Rules, Deep
VARIABLES F, rule, limit,   \* input forest, successor rule, pop limit
          v, cand, seen, popped, pops, offers,
          out,              \* output edges [h, e, t]: h, t name output nodes <<input node, state>>
          rank              \* per input node: sequence of its output nodes
vars == <<F, rule, limit, v, cand, seen, popped, pops, offers, out, rank>>
\* edges [h, t, e]: e a sequence of words (> 0) and 0, -1 for the tails; the last node is the goal
Ed(h, t, e) == [h |-> h, t |-> t, e |-> e]
Two == {<<0, -1>>, <<-1, 0>>, <<0, 1, -1>>}
One == {<<0>>, <<0, 1>>, <<2, 0>>}
Leaves == {<<1>>, <<2>>, <<2, 1>>}
Forests ==
  {<<Ed(1, <<>>, a), Ed(1, <<>>, b), Ed(2, <<1, 1>>, c), Ed(3, <<2>>, <<0>>)>> : a \in {<<1>>}, b \in Leaves \ {<<1>>}, c \in Two}
  \cup {<<Ed(1, <<>>, <<1>>), Ed(1, <<>>, <<2>>), Ed(2, <<1>>, x), Ed(2, <<>>, <<1, 2>>), Ed(3, <<1, 2>>, c), Ed(4, <<3>>, <<0>>)>> : x \in One, c \in Two}
  \cup (IF Deep THEN {<<Ed(1, <<>>, <<1>>), Ed(1, <<>>, <<2>>), Ed(1, <<>>, <<2, 1>>), Ed(2, <<1, 1>>, c), Ed(2, <<1>>, x), Ed(3, <<2>>, <<0>>)>> : x \in One, c \in Two} ELSE {})
Goal == F[Len(F)].h
InE(n) == {k \in 1..Len(F) : F[k].h = n}
\* state of a word sequence and the bigrams inside it
RECURSIVE Sub(_, _)
Sub(e, ys) == IF e = <<>> THEN <<>> ELSE (IF Head(e) > 0 THEN <<Head(e)>> ELSE ys[1 - Head(e)]) \o Sub(Tail(e), ys)
St(y) == <<y[1], y[Len(y)]>>
\* a candidate's output state from its tails' states only
Ends(e, ss) == LET q == Sub(e, ss) IN <<q[1], q[Len(q)]>>
\* bigrams an edge adds: neighbours across its own symbols
RECURSIVE Added(_, _)
Added(e, ss) == IF Len(e) < 2 THEN <<>>
  ELSE LET r(x) == IF x > 0 THEN x ELSE ss[1 - x][2]
           l(x) == IF x > 0 THEN x ELSE ss[1 - x][1] IN <<<<r(e[1]), l(e[2])>>>> \o Added(Tail(e), ss)
TailsOf(c) == [q \in 1..Len(F[c[1]].t) |-> rank[F[c[1]].t[q]][c[2][q]]]
HeadOf(c) == <<F[c[1]].h, IF F[c[1]].h = Goal THEN <<>> ELSE Ends(F[c[1]].e, [q \in 1..Len(TailsOf(c)) |-> TailsOf(c)[q][2]])>>
First(k) == <<k, [q \in 1..Len(F[k].t) |-> 1]>>
Valid(c) == \A q \in 1..Len(c[2]) : c[2][q] <= Len(rank[F[c[1]].t[q]])
Up(c, q) == <<c[1], [c[2] EXCEPT ![q] = @ + 1]>>
Down(c, q) == <<c[1], [c[2] EXCEPT ![q] = @ - 1]>>
Succs(c) == {x \in CASE rule = 1 -> {Up(c, q) : q \in 1..Len(c[2])} \ seen
                     [] rule = 2 -> {Up(c, q) : q \in {z \in 1..Len(c[2]) : \A y \in 1..(z - 1) : c[2][y] = 1}}
                     [] rule = 3 -> {x \in {Up(c, q) : q \in 1..Len(c[2])} : \A q \in 1..Len(x[2]) : x[2][q] = 1 \/ Down(x, q) \in popped \cup {c}} : Valid(x)}
Init == /\ F \in Forests /\ rule \in Rules /\ limit \in Limits
        /\ v = 1 /\ cand = {First(k) : k \in InE(1)} /\ seen = cand /\ popped = {} /\ pops = 0 /\ offers = Cardinality(cand)
        /\ out = {} /\ rank = [n \in 1..Goal |-> <<>>]
Pop == /\ v <= Goal /\ cand # {} /\ pops < limit
       /\ \E c \in cand :
            /\ out' = out \cup {[h |-> HeadOf(c), e |-> c[1], t |-> TailsOf(c)]}
            /\ cand' = (cand \ {c}) \cup Succs(c)
            /\ seen' = seen \cup Succs(c)
            /\ offers' = offers + Cardinality(Succs(c))
            /\ popped' = popped \cup {c}
       /\ pops' = pops + 1
       /\ UNCHANGED <<F, rule, limit, v, rank>>
NodeDone == /\ v <= Goal /\ (cand = {} \/ pops = limit)
            /\ \E r \in SetToSeqs({o.h : o \in {x \in out : x.h[1] = v}}) :
                 LET rk == [rank EXCEPT ![v] = r] IN
                 /\ rank' = rk
                 /\ cand' = IF v = Goal THEN {} ELSE {First(k) : k \in InE(v + 1)}
            /\ seen' = cand' /\ offers' = Cardinality(cand') /\ popped' = {} /\ pops' = 0 /\ v' = v + 1
            /\ UNCHANGED <<F, rule, limit, out>>
Next == Pop \/ NodeDone
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
RECURSIVE Prods(_)
Prods(ss) == IF ss = <<>> THEN {<<>>} ELSE LET r == Prods(Tail(ss)) IN {<<x>> \o y : x \in Head(ss), y \in r}
\* derivations of the input: [t, y]; of the output: [t, g] with g the bigrams collected edge by edge
InTab == FoldLeft(LAMBDA T, n : Append(T, UNION {{[t |-> <<k, [q \in 1..Len(ks) |-> ks[q].t]>>, y |-> Sub(F[k].e, [q \in 1..Len(ks) |-> ks[q].y])]
                     : ks \in Prods([q \in 1..Len(F[k].t) |-> T[F[k].t[q]]])} : k \in InE(n)}), <<>>, [n \in 1..Goal |-> n])
RECURSIVE OutD(_)
OutD(h) == UNION {{[t |-> <<o.e, [q \in 1..Len(ks) |-> ks[q].t]>>,
                    g |-> FoldLeft(LAMBDA s, d : s \o d.g, Added(F[o.e].e, [q \in 1..Len(o.t) |-> o.t[q][2]]), ks)]
                   : ks \in Prods([q \in 1..Len(o.t) |-> OutD(o.t[q])])} : o \in {x \in out : x.h = h}}

Rng0(s) == {s[k] : k \in DOMAIN s}
Bag(s) == {<<x, Cardinality({k \in DOMAIN s : s[k] = x})>> : x \in Rng0(s)}
Bigrams(y) == [k \in 1..(Len(y) - 1) |-> <<y[k], y[k + 1]>>]
Result == v = Goal + 1 =>
  LET O == OutD(<<Goal, <<>>>>)  I == InTab[Goal] IN
  /\ O # {}
  /\ \A d \in O : \E o \in I : o.t = d.t /\ Bag(Bigrams(o.y)) = Bag(d.g)
  /\ limit >= 100 => {d.t : d \in O} = {o.t : o \in I}
\* every candidate is popped at most once: the number of pops is the number of edges made
OncePop == pops = Cardinality(popped) /\ offers = Cardinality(seen)   \* nor offered twice
SumAll == FoldSet(LAMBDA k, s : s + FoldLeft(LAMBDA p, t : p * Len(rank[t]), 1, F[k].t), 0, InE(v))
NoLoss == (v <= Goal /\ cand = {} /\ limit >= 100) => Cardinality(popped) = SumAll
=============================================================================
