-------------------------------- MODULE PLF --------------------------------
(* The lattice text format ("Python lattice format") as a grammar over       *)
(* character codes, and lattices as sequences of nodes, each a sequence of   *)
(* arcs [w |-> label, f |-> set of <<feature name, value>>, d |-> length].   *)
(* Numbers are in thousandths.                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

SP == 32  QUOTE == 39  LP == 40  RP == 41  COMMA == 44  MINUS == 45  DOT == 46  COLON == 58  SLASH == 92  LB == 123  RB == 125
At(s, c) == IF c \in 1..Len(s) THEN s[c] ELSE 0
RECURSIVE Ws(_, _)
Ws(s, c) == IF At(s, c) = SP THEN Ws(s, c + 1) ELSE c
BAD == [ok |-> FALSE, c |-> 0, v |-> <<>>]
Ok(c, v) == [ok |-> TRUE, c |-> c, v |-> v]

\* 'text' with \ escaping the next character
RECURSIVE QBody(_, _, _)
QBody(s, c, acc) == CASE At(s, c) = 0 -> BAD
                      [] At(s, c) = QUOTE -> Ok(c + 1, acc)
                      [] At(s, c) = SLASH -> QBody(s, c + 2, Append(acc, At(s, c + 1)))
                      [] OTHER -> QBody(s, c + 1, Append(acc, s[c]))
Quoted(s, c0) == LET c == Ws(s, c0) IN IF At(s, c) # QUOTE THEN BAD
                 ELSE LET r == QBody(s, c + 1, <<>>) IN IF r.ok THEN [r EXCEPT !.c = Ws(s, r.c)] ELSE r

Digit(x) == x \in 48..57
RECURSIVE Digits(_, _, _)
Digits(s, c, v) == IF Digit(At(s, c)) THEN Digits(s, c + 1, v * 10 + (s[c] - 48)) ELSE <<c, v>>
Frac(s, c) == \* up to three digits after the point, in thousandths
  LET q == Digits(s, c, 0)  n == q[1] - c IN
  <<q[1], CASE n = 0 -> 0 [] n = 1 -> q[2] * 100 [] n = 2 -> q[2] * 10 [] OTHER -> q[2]>>
Num(s, c0) ==
  LET c == Ws(s, c0)  neg == At(s, c) = MINUS  d == Digits(s, IF neg THEN c + 1 ELSE c, 0)
      f == IF At(s, d[1]) = DOT THEN Frac(s, d[1] + 1) ELSE <<d[1], 0>>
      v == d[2] * 1000 + f[2] IN
  IF f[1] = c THEN BAD ELSE Ok(Ws(s, f[1]), IF neg THEN -v ELSE v)

RECURSIVE NumList(_, _, _)   \* a, b, c)
NumList(s, c, acc) == LET r == Num(s, c) IN
  IF ~r.ok THEN BAD ELSE IF At(s, r.c) = COMMA THEN NumList(s, r.c + 1, Append(acc, r.v)) ELSE Ok(r.c, Append(acc, r.v))
RECURSIVE Dict(_, _, _)      \* 'name' : value, ... }
Dict(s, c0, acc) ==
  LET c == Ws(s, c0) IN
  IF At(s, c) = RB THEN Ok(c + 1, acc)
  ELSE LET n == Quoted(s, c) IN
       IF ~n.ok \/ At(s, n.c) # COLON THEN BAD
       ELSE LET x == Num(s, n.c + 1) IN
            IF ~x.ok THEN BAD
            ELSE IF At(s, x.c) = COMMA THEN Dict(s, x.c + 1, Append(acc, <<n.v, x.v>>)) ELSE
                 IF At(s, x.c) = RB THEN Ok(x.c + 1, Append(acc, <<n.v, x.v>>)) ELSE BAD
\* "LatticeCost_" then the digit
DenseName(k) == <<76, 97, 116, 116, 105, 99, 101, 67, 111, 115, 116, 95, 48 + k>>
NonZero(fs) == {x \in fs : x[2] # 0}
Arc(s, c) ==
  IF At(s, c) # LP THEN BAD
  ELSE LET w == Quoted(s, c + 1) IN
  IF ~w.ok \/ At(s, w.c) # COMMA THEN BAD
  ELSE LET b == Ws(s, w.c + 1) IN
  IF At(s, b) = LB
    THEN LET d == Dict(s, b + 1, <<>>) IN
         IF ~d.ok THEN BAD ELSE LET e == Ws(s, d.c) IN
         IF At(s, e) # COMMA THEN BAD ELSE LET n == Num(s, e + 1) IN
         IF ~n.ok \/ At(s, n.c) # RP THEN BAD
         ELSE Ok(n.c + 1, [w |-> w.v, f |-> NonZero({d.v[i] : i \in 1..Len(d.v)}), d |-> n.v \div 1000])
    ELSE LET n == NumList(s, b, <<>>) IN
         IF ~n.ok \/ At(s, n.c) # RP THEN BAD
         ELSE LET m == Len(n.v) IN
              Ok(n.c + 1, [w |-> w.v, f |-> NonZero({<<DenseName(i - 1), n.v[i]>> : i \in 1..(m - 1)}), d |-> n.v[m] \div 1000])
\* items separated by commas, an optional comma before the closing parenthesis
RECURSIVE Items(_, _, _, _)
Items(Elem(_, _), s, c, acc) ==
  CASE At(s, c) = RP -> Ok(Ws(s, c + 1), acc)
    [] At(s, c) = COMMA /\ At(s, c + 1) = RP -> Ok(Ws(s, c + 2), acc)
    [] OTHER -> LET r == Elem(s, IF At(s, c) = COMMA THEN Ws(s, c + 1) ELSE Ws(s, c)) IN
                IF ~r.ok THEN BAD ELSE Items(Elem, s, Ws(s, r.c), Append(acc, r.v))
Node(s, c) == IF At(s, c) # LP THEN BAD ELSE Items(Arc, s, Ws(s, c + 1), <<>>)
Parse(s) == IF At(s, 1) # LP THEN BAD ELSE Items(Node, s, 2, <<>>)

------------------------------------------------------------------------------
\* writing (one canonical spelling), for the round trip of the format itself
RECURSIVE Esc(_)
Esc(w) == IF w = <<>> THEN <<>> ELSE (IF Head(w) \in {QUOTE, SLASH} THEN <<SLASH, Head(w)>> ELSE <<Head(w)>>) \o Esc(Tail(w))
RECURSIVE Nat2(_)
Nat2(n) == (IF n < 10 THEN <<>> ELSE Nat2(n \div 10)) \o <<48 + (n % 10)>>
Num2(v) == LET a == IF v < 0 THEN -v ELSE v IN (IF v < 0 THEN <<MINUS>> ELSE <<>>) \o Nat2(a \div 1000)
           \o <<DOT, 48 + ((a % 1000) \div 100), 48 + ((a % 100) \div 10), 48 + (a % 10)>>
FlattenSeq2(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Feats2(fs) == FlattenSeq2([i \in 1..Len(fs) |-> <<QUOTE>> \o Esc(fs[i][1]) \o <<QUOTE, COLON>> \o Num2(fs[i][2]) \o <<COMMA>>])
WriteArc(a, order(_)) == <<LP, QUOTE>> \o Esc(a.w) \o <<QUOTE, COMMA, LB>> \o Feats2(order(a.f)) \o <<RB, COMMA>> \o Nat2(a.d) \o <<RP, COMMA>>
WriteNode(n, order(_)) == <<LP>> \o FlattenSeq2([i \in 1..Len(n) |-> WriteArc(n[i], order)]) \o <<RP, COMMA>>
Write(L, order(_)) == <<LP>> \o FlattenSeq2([i \in 1..Len(L) |-> WriteNode(L[i], order)]) \o <<RP>>

------------------------------------------------------------------------------
\* paths of a lattice: sequences of <<node, arc>> from node 1 to Len(L) + 1
RECURSIVE PathsFrom(_, _)
PathsFrom(L, v) == IF v = Len(L) + 1 THEN {<<>>}
                   ELSE UNION {{<< <<v, k>> >> \o p : p \in PathsFrom(L, v + L[v][k].d)} : k \in {q \in 1..Len(L[v]) : v + L[v][q].d <= Len(L) + 1}}
Paths(L) == PathsFrom(L, 1)
=============================================================================
