----------------------------- MODULE ExtractRunMC ----------------------------
(* Threads take sentences from a list, number their words in a dictionary    *)
(* they share (which may have been filled before, or loaded), and write the  *)
(* grammar of each sentence.  For every interleaving the files depend on     *)
(* their sentences alone and the report lists them in order.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Words, N, Len1, Threads, Variant
VARIABLES sents, dict, idx, next, pc, cur, ids, sel, black, files, out, old
vars == <<sents, dict, idx, next, pc, cur, ids, sel, black, files, out, old>>
None == <<-1>>
\* dict: words by number; idx: the number a word has (0: none)
Init == /\ sents \in [1..N -> UNION {[1..k -> 1..Words] : k \in 0..Len1}]
        /\ old \in {<<>>, <<2>>, <<2, 1>>}
        /\ dict = old /\ idx = [w \in 1..Words |-> IF \E i \in DOMAIN old : old[i] = w THEN CHOOSE i \in DOMAIN old : old[i] = w ELSE 0]
        /\ next = 1 /\ pc = [t \in Threads |-> "idle"] /\ cur = [t \in Threads |-> 0] /\ ids = [t \in Threads |-> <<>>] /\ sel = [t \in Threads |-> 0]
        /\ black = [t \in Threads |-> {}] /\ files = [i \in 1..N |-> None] /\ out = <<>>
Take(t) == /\ pc[t] = "idle" /\ next <= N
           /\ IF Variant = "sharedindex" THEN cur' = [u \in Threads |-> next] ELSE cur' = [cur EXCEPT ![t] = next]
           /\ next' = next + 1 /\ pc' = [pc EXCEPT ![t] = "number"] /\ ids' = [ids EXCEPT ![t] = <<>>]
           /\ IF Variant = "sharedblack" THEN black' = [u \in Threads |-> {next}] ELSE black' = [black EXCEPT ![t] = {next}]
           /\ UNCHANGED <<sents, dict, idx, sel, files, out, old>>
Word(t) == sents[cur[t]][Len(ids[t]) + 1]
More(t) == Len(ids[t]) < Len(sents[cur[t]])
\* in one step, under the lock
Number(t) == /\ pc[t] = "number" /\ More(t) /\ Variant # "nolock"
             /\ IF idx[Word(t)] # 0 THEN ids' = [ids EXCEPT ![t] = Append(@, idx[Word(t)])] /\ UNCHANGED <<dict, idx>>
                ELSE dict' = Append(dict, Word(t)) /\ idx' = [idx EXCEPT ![Word(t)] = Len(dict) + 1] /\ ids' = [ids EXCEPT ![t] = Append(@, Len(dict) + 1)]
             /\ UNCHANGED <<sents, next, pc, cur, sel, black, files, out, old>>
\* without it: the new number is chosen before the word is entered
Choose(t) == /\ pc[t] = "number" /\ More(t) /\ Variant = "nolock"
             /\ IF idx[Word(t)] # 0 THEN ids' = [ids EXCEPT ![t] = Append(@, idx[Word(t)])] /\ UNCHANGED <<sel, pc>>
                ELSE sel' = [sel EXCEPT ![t] = Len(dict) + 1] /\ pc' = [pc EXCEPT ![t] = "enter"] /\ UNCHANGED ids
             /\ UNCHANGED <<sents, dict, idx, next, cur, black, files, out, old>>
Enter(t) == /\ pc[t] = "enter" /\ dict' = Append(dict, Word(t)) /\ idx' = [idx EXCEPT ![Word(t)] = sel[t]]
            /\ ids' = [ids EXCEPT ![t] = Append(@, sel[t])] /\ pc' = [pc EXCEPT ![t] = "number"]
            /\ UNCHANGED <<sents, next, cur, sel, black, files, out, old>>
\* the grammar names words again by their numbers
Write(t) == /\ pc[t] = "number" /\ ~More(t)
            /\ files' = [files EXCEPT ![cur[t]] = <<[k \in DOMAIN ids[t] |-> IF ids[t][k] <= Len(dict) THEN dict[ids[t][k]] ELSE 0], black[t]>>]
            /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<sents, dict, idx, next, cur, ids, sel, black, out, old>>
AllIdle == next > N /\ (\A t \in Threads : pc[t] = "idle")
Report == /\ (IF Variant = "early" THEN next > N ELSE AllIdle)
          /\ Len(out) < N /\ out' = Append(out, <<Len(out) + 1, files[Len(out) + 1]>>) /\ UNCHANGED <<sents, dict, idx, next, pc, cur, ids, sel, black, files, old>>
Next == Report \/ \E t \in Threads : Take(t) \/ Number(t) \/ Choose(t) \/ Enter(t) \/ Write(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Independent == AllIdle => \A i \in 1..N : files[i] = <<sents[i], {i}>>
Reported == \A k \in DOMAIN out : out[k][1] = k /\ out[k][2] # None
Dictionary == Variant = "nolock" \/ ((\A w \in 1..Words : idx[w] = 0 \/ dict[idx[w]] = w) /\ (\A i, j \in DOMAIN dict : dict[i] = dict[j] => i = j))
Ends == <>(Len(out) = N)
=============================================================================
