------------------------------ MODULE LexAlign ------------------------------
(***************************************************************************)
(* Word-by-word translation models (lexical translation, lexical           *)
(* alignment, tagging).  Every target position is produced by one source   *)
(* position (or the null word, position -1) with one rule; positions are   *)
(* independent, so a derivation is a function from target positions to     *)
(* options <<source position, rule number>>.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Rng(s) == {s[i] : i \in 1..Len(s)}
Null == "<eps>"
\* rules : sequence of [s, t, fs]; sources of position i: all, or only the word at i (tagging)
Sources(src, mode, null, i) == CASE mode = "tag" -> {i} \cap (0..(Len(src) - 1))
                                 [] OTHER -> (0..(Len(src) - 1)) \cup (IF null THEN {-1} ELSE {})
WordAt(src, j) == IF j = -1 THEN Null ELSE src[j + 1]
\* what may be produced at target position i (before looking at the reference)
Options(src, rules, mode, null, only, i) ==
  {o \in Sources(src, mode, null, i) \X (1..Len(rules)) : rules[o[2]].s = WordAt(src, o[1]) /\ rules[o[2]].t \in only}
Needed(src, null) == Rng(src) \cup (IF null THEN {Null} ELSE {})
Fails(src, rules, mode, null) == mode = "lex" /\ \E w \in Needed(src, null) : ~\E k \in 1..Len(rules) : rules[k].s = w
\* the same, restricted to what produces the reference
RefOptions(src, rules, mode, null, only, ref, i) == {o \in Options(src, rules, mode, null, only, i) : rules[o[2]].t = ref[i + 1]}
Reaches(src, rules, mode, null, only, ref) ==
  /\ mode = "tag" => Len(ref) = Len(src)
  /\ \A i \in 0..(Len(ref) - 1) : RefOptions(src, rules, mode, null, only, ref, i) # {}
RECURSIVE Product(_)
Product(ss) == IF ss = <<>> THEN {<<>>} ELSE LET r == Product(Tail(ss)) IN {<<x>> \o y : x \in Head(ss), y \in r}
Derivs(src, rules, mode, null, only, ref) == Product([i \in 1..Len(ref) |-> RefOptions(src, rules, mode, null, only, ref, i - 1)])
LinksOf(d) == {<<d[i][1], i - 1>> : i \in {q \in 1..Len(d) : d[q][1] >= 0}}
=============================================================================
