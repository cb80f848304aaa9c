-------------------------------- MODULE Trans --------------------------------
(***************************************************************************)
(* Tree-to-string translation, compound splitting and finite-state         *)
(* (monotone) translation.                                                 *)
(* A tree is <<"n", label, kids>>; a kid is a tree, a word <<"w", x, <<>>>>*)
(* or - in rules only - a variable <<"v", label, <<>>>>.                   *)
(* A rule: [src |-> tree with variables, e |-> target, fs |-> features].   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Size(_)
Size(t) == IF t[1] = "n" THEN FoldLeft(LAMBDA a, x : a + Size(x), 0, t[3]) ELSE 1
\* source positions where the kids of t start, when t starts at left
Starts(t, left) == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + Size(x)), <<left>>, t[3])
(***************************************************************************)
(* A rule covers the top of a tree: labels, number of children and words   *)
(* coincide; a variable stands for a whole subtree with its label.         *)
(* Result: {} or {<<subtrees under the variables, left to right>>}, each   *)
(* as <<start, subtree>>.                                                  *)
(***************************************************************************)
RECURSIVE Match(_, _, _)
Match(R, t, left) ==
  CASE R[1] = "v" -> IF t[1] = "n" /\ t[2] = R[2] THEN {<<<<left, t>>>>} ELSE {}
    [] R[1] = "w" -> IF t[1] = "w" /\ t[2] = R[2] THEN {<<>>} ELSE {}
    [] OTHER -> IF t[1] # "n" \/ t[2] # R[2] \/ Len(t[3]) # Len(R[3]) THEN {}
                ELSE LET at == Starts(t, left) IN
                     FoldLeft(LAMBDA acc, k : {x \o y : x \in acc, y \in Match(R[3][k], t[3][k], at[k])}, {<<>>}, [k \in 1..Len(t[3]) |-> k])
(* All derivations of a subtree, each the sequence of its steps <<rule, start, end>> in pre-order. *)
RECURSIVE Derivs(_, _, _)
Derivs(G, t, left) ==
  UNION {UNION {FoldLeft(LAMBDA acc, x : {p \o q : p \in acc, q \in Derivs(G, x[2], x[1])}, {<<<<k, left, left + Size(t)>>>>}, m)
                : m \in Match(G[k].src, t, left)} : k \in 1..Len(G)}
\* source side of a rule read as a string: words and variables
RECURSIVE Flat(_)
Flat(R) == IF R[1] = "n" THEN FoldLeft(LAMBDA acc, x : acc \o Flat(x), <<>>, R[3]) ELSE <<<<IF R[1] = "v" THEN 1 ELSE 0, R[2]>>>>
NonZero(fs) == {x \in Rng(fs) : x[2] # 0}
ShowT(G, s) == <<s[2], s[3], G[s[1]].src[2], Flat(G[s[1]].src), G[s[1]].e, NonZero(G[s[1]].fs)>>
(***************************************************************************)
(* Copying rules: every production of the tree once, translated word for   *)
(* word; one that consists of variables only is not added when some        *)
(* grammar already translates it monotonically.                            *)
(***************************************************************************)
Top(t) == <<"n", t[2], [k \in 1..Len(t[3]) |-> IF t[3][k][1] = "n" THEN <<"v", t[3][k][2], <<>>>> ELSE t[3][k]]>>
RECURSIVE Productions(_)
Productions(t) == IF t[1] = "n" THEN {Top(t)} \cup UNION {Productions(x) : x \in Rng(t[3])} ELSE {}
Ix(k) == CASE k = 1 -> "[1]" [] k = 2 -> "[2]" [] k = 3 -> "[3]" [] k = 4 -> "[4]" [] OTHER -> "[5]"
Monotone(p) == FoldLeft(LAMBDA acc, x : [o |-> Append(acc.o, IF x[1] = "v" THEN Ix(acc.n + 1) ELSE x[2]), n |-> IF x[1] = "v" THEN acc.n + 1 ELSE acc.n],
                        [o |-> <<>>, n |-> 0], p[3]).o
Abstract(p) == \A k \in 1..Len(p[3]) : p[3][k][1] = "v"
Lexical(p) == \A k \in 1..Len(p[3]) : p[3][k][1] = "w"
Copies(G, t) ==
  SetToSeq({[src |-> p, e |-> Monotone(p),
             fs |-> <<<<"PassThrough", 1000>>, <<"PassThrough:" \o p[2], 1000>>,
                      <<IF Abstract(p) THEN "PassThrough_Abstract" ELSE IF Lexical(p) THEN "PassThrough_Lexical" ELSE "PassThrough_Mix", 1000>>>>]
            : p \in {q \in Productions(t) : ~ (Abstract(q) /\ \E k \in 1..Len(G) : G[k].src = q /\ G[k].e = Monotone(q))}})
(***************************************************************************)
(* Compound splitting.  W: the characters of a word, each [c |-> text,     *)
(* b |-> length in bytes].  Parts have at least three characters (a        *)
(* shorter word is one part); a part that is not the last may lose its     *)
(* linking element.                                                        *)
(***************************************************************************)
MinPart == 3
Text(W, i, j) == FoldLeft(LAMBDA a, k : a \o W[k].c, "", [k \in 1..(j - i) |-> i + k])
Bytes(W, i, j) == FoldLeft(LAMBDA a, k : a + W[k].b, 0, [k \in 1..(j - i) |-> i + k])
\* what may be cut off the part i..j (characters i+1 to j): <<number of characters, feature>> or <<>>
Link(W, i, j) ==
  LET len == Bytes(W, i, j)  z == W[j].c  y == IF j - i > 1 THEN W[j - 1].c ELSE "" IN
  IF j = Len(W) THEN <<>>
  ELSE IF len > MinPart + 2 /\ z = "s" /\ y = "e" THEN <<2, "FugS">>
  ELSE IF len > MinPart + 1 /\ z = "s" THEN <<1, "FugS">>
  ELSE IF len > MinPart + 2 /\ z = "n" /\ y = "e" THEN <<1, "FugN">>
  ELSE <<>>
PartOk(W, i, j) == j - i >= MinPart \/ (i = 0 /\ j = Len(W))
Part(W, i, j) == {<<i, j, Text(W, i, j), Text(W, i, j), {}>>}
                 \cup (IF Link(W, i, j) = <<>> THEN {} ELSE {<<i, j, Text(W, i, j), Text(W, i, j - Link(W, i, j)[1]), {<<Link(W, i, j)[2], 1000>>}>>})
RECURSIVE Splits(_, _)
Splits(W, i) == IF i = Len(W) THEN {<<>>}
                ELSE UNION {{<<p>> \o r : p \in Part(W, i, j), r \in Splits(W, j)} : j \in {q \in (i + 1)..Len(W) : PartOk(W, i, q)}}
(***************************************************************************)
(* Finite-state translation of a sentence S: consecutive phrases.          *)
(***************************************************************************)
RECURSIVE Mono(_, _, _)
Mono(P, S, i) == IF i = Len(S) THEN {<<>>}
                 ELSE UNION {{<<k>> \o r : r \in Mono(P, S, i + Len(P[k].f))} :
                             k \in {q \in 1..Len(P) : i + Len(P[q].f) <= Len(S) /\ SubSeq(S, i + 1, i + Len(P[q].f)) = P[q].f}}
=============================================================================
