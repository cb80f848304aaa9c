------------------------------ MODULE InternMC -------------------------------
(* Two processes that exchange weight files.  Each keeps its table as an     *)
(* array of names and an index, as utils/dict.h does.                        *)
EXTENDS Intern, TLC
CONSTANTS Names, Steps, Variant
VARIABLES words, index, frozen, w, file, told, k
vars == <<words, index, frozen, w, file, told, k>>
P == {1, 2}
Nm == {<<n>> : n \in 1..Names}
Values == {Zero, "v1", "v2"}
Init == /\ words = [p \in P |-> <<>>] /\ index = [p \in P |-> [n \in {} |-> 0]] /\ frozen = [p \in P |-> FALSE]
        /\ w = [p \in P |-> <<>>] /\ file = <<>> /\ told = [p \in P |-> {}] /\ k = 0
\* one conversion as the code does it: <<words, index, id>>
Conv(ws, ix, n, fz) ==
   IF n \in DOMAIN ix THEN <<ws, ix, ix[n]>>
   ELSE IF fz /\ Variant # "frozenadd" THEN <<ws, ix, 0>>
   ELSE LET ws2 == IF Variant = "front" THEN <<n>> \o ws ELSE Append(ws, n)
            id == IF Variant = "front" THEN 1 ELSE IF Variant = "oldsize" THEN Len(ws) ELSE Len(ws2)
        IN <<ws2, (n :> id) @@ ix, id>>
Tell(p, n, id) == told' = [told EXCEPT ![p] = @ \cup {<<n, id>>}]
Convert(p) == \E n \in Nm : LET c == Conv(words[p], index[p], n, frozen[p]) IN
   /\ words' = [words EXCEPT ![p] = c[1]] /\ index' = [index EXCEPT ![p] = c[2]] /\ (IF c[3] = 0 THEN UNCHANGED told ELSE Tell(p, n, c[3]))
   /\ UNCHANGED <<frozen, w, file>>
Freeze(p) == frozen' = [frozen EXCEPT ![p] = TRUE] /\ UNCHANGED <<words, index, w, file, told>>
Set(p) == \E i \in DOMAIN words[p], v \in Values : w' = [w EXCEPT ![p] = SetAt(@, i, v)] /\ UNCHANGED <<words, index, frozen, file, told>>
\* the written file is the weights of the names, whatever the ids are
Write(p) == \E hide \in BOOLEAN :
   LET all == [i \in DOMAIN words[p] |-> <<words[p][i], At(w[p], IF Variant = "shifted" THEN i - 1 ELSE i)>>]
   IN file' = (IF hide THEN SelectSeq(all, LAMBDA e : ~IsZero(e[2])) ELSE all) /\ UNCHANGED <<words, index, frozen, w, told>>
Read(p) ==
   LET f(a, e) == LET c == Conv(a[1], a[2], e[1], frozen[p]) IN <<c[1], c[2], SetAt(a[3], c[3], e[2])>>
       r == FoldLeft(f, <<words[p], index[p], <<>>>>, file)
   IN /\ words' = [words EXCEPT ![p] = r[1]] /\ index' = [index EXCEPT ![p] = r[2]] /\ w' = [w EXCEPT ![p] = r[3]]
      /\ UNCHANGED <<frozen, file, told>>
Next == k < Steps /\ k' = k + 1 /\ \E p \in P : Convert(p) \/ Freeze(p) \/ Set(p) \/ Write(p) \/ Read(p)
\* ---- what callers see
TableOk == \A p \in P : /\ \A i, j \in DOMAIN words[p] : i # j => words[p][i] # words[p][j]
                        /\ DOMAIN index[p] = ToSet(words[p])
                        /\ \A n \in DOMAIN index[p] : index[p][n] \in DOMAIN words[p] /\ words[p][index[p][n]] = n
Stable == \A p \in P : \A t \in told[p] : t[1] \in DOMAIN index[p] /\ index[p][t[1]] = t[2] /\ words[p][t[2]] = t[1]
Refines == [][\A p \in P : /\ \E n \in 0..Len(words'[p]) : words[p] = SubSeq(words'[p], 1, n)
                           /\ frozen[p] => words'[p] = words[p]]_vars
\* after a write by one process and a read by another, named weights agree
ValueOf(p, n) == IF n \in ToSet(words[p]) THEN At(w[p], IdOf(words[p], n)) ELSE Zero
Transfers == [][\A p, q \in P : (Write(p) /\ p # q) => LET f == file' IN
                   \A n \in Nm : LET t == ReadTable(words[q], f, frozen[q]) IN
                        Known(t, n) => At(ReadWeights(t, <<>>, f), IdOf(t, n)) = ValueOf(p, n)]_vars
ReadIsRead == [][\A p \in P : (Read(p) /\ k' = k + 1 /\ words' # words) => SameWeights(w'[p], ReadWeights(ReadTable(words[p], file, frozen[p]), <<>>, file))]_vars
=============================================================================
