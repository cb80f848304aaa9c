------------------------------ MODULE ExtractRun -----------------------------
(* A run of the extraction programs.  Text is a sequence of characters.      *)
EXTENDS Integers, Sequences, FiniteSets
\* the input line, up to the first |||, and the rest
RECURSIVE Cut(_, _)
Cut(s, i) == IF i + 2 > Len(s) THEN Len(s) + 1 ELSE IF s[i] = "|" /\ s[i + 1] = "|" /\ s[i + 2] = "|" THEN i ELSE Cut(s, i + 1)
Sentence(s) == SubSeq(s, 1, Cut(s, 1) - 1)
Suffix(s) == SubSeq(s, Cut(s, 1), Len(s))
Seg(path, id, s) == <<"<", "s", "e", "g", " ", "g", "r", "a", "m", "m", "a", "r", "=", "\"">> \o path \o <<"\"", " ", "i", "d", "=", "\"">> \o id \o <<"\"", ">", " ">>
                    \o Sentence(s) \o <<" ", "<", "/", "s", "e", "g", ">", " ">> \o Suffix(s)
=============================================================================
