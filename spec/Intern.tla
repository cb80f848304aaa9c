------------------------------- MODULE Intern --------------------------------
(* Name tables and weight files.                                             *)
(* A table is the sequence of names it has handed out ids 1, 2, .. for;      *)
(* a name is the sequence of its parts; 0 is the id of no name.              *)
(* A weight vector is the sequence of the values of features 1, 2, ..        *)
(* A weight file is a sequence of entries <<name, value>>; values are opaque *)
(* but for those that are zero.                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
IdOf(t, x) == IF \E i \in DOMAIN t : t[i] = x THEN CHOOSE i \in DOMAIN t : t[i] = x ELSE 0
Known(t, x) == \E i \in DOMAIN t : t[i] = x
Intern(t, x, frozen) == IF Known(t, x) \/ frozen THEN t ELSE Append(t, x)
InternAll(t, xs, frozen) == FoldLeft(LAMBDA a, x : Intern(a, x, frozen), t, xs)
Ids(t, xs) == [i \in DOMAIN xs |-> IdOf(t, xs[i])]
Zero == "0x0p+0"
IsZero(v) == v \in {Zero, "-0x0p+0"}
At(w, i) == IF i \in DOMAIN w THEN w[i] ELSE Zero
\* vectors that differ in trailing zeros hold the same weights
SameWeights(v, w) == \A i \in DOMAIN v \cup DOMAIN w : At(v, i) = At(w, i)
SetAt(w, i, v) == IF i = 0 THEN w ELSE [j \in 1..(IF i > Len(w) THEN i ELSE Len(w)) |-> IF j = i THEN v ELSE At(w, j)]
\* reading: entries for unknown names are dropped when the table is frozen
ReadTable(t, entries, frozen) == InternAll(t, [i \in DOMAIN entries |-> entries[i][1]], frozen)
ReadWeights(t, w, entries) == FoldLeft(LAMBDA a, e : SetAt(a, IdOf(t, e[1]), e[2]), w, entries)   \* t: the table afterwards
\* writing: every feature of the table, or those with weight
Written(t, w, hide) == LET all == [i \in DOMAIN t |-> <<t[i], At(w, i)>>] IN IF hide THEN SelectSeq(all, LAMBDA e : ~IsZero(e[2])) ELSE all
\* splitting a line: positive numbers are names, others separators
Words(p) == LET q == SelectSeq(p, LAMBDA x : x > 0) IN q   \* (the pieces of a line alternate)
\* escaping: blank, and characters with a meaning in weight names
Hex(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Special == {61, 58, 59, 44, 95, 124, 37}
EscapeOf(c) == FoldLeft(LAMBDA a, x : a \o (IF x = 32 THEN <<43>> ELSE IF x \in Special THEN <<37, Hex(x \div 16), Hex(x % 16)>> ELSE <<x>>), <<>>, c)
=============================================================================
