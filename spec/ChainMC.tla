---------------------------- MODULE ChainMC ----------------------------
(* A chain: a ring of stages joined by queues through which NB blocks travel.  The first
   stage fills blocks with records and ends by poisoning the block it holds; each middle stage
   reads the records of a block, may change or drop them, and passes the block on; the last
   stage gives blocks their full size back and returns them to the front.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NB,       \* blocks
          Size,     \* records per block
          K,        \* stages, including the recycler
          N,        \* records written
          Cap,      \* capacity of the queues
          Drop,     \* stage that drops odd records (0: none)
          Variant
VARIABLES q, cur, pc, pos, mem, seen, sent, wrote, ended, drained
vars == <<q, cur, pc, pos, mem, seen, sent, wrote, ended, drained>>
St == 1..K
None == [b |-> -1, n |-> 0]           \* holds nothing
Poison == [b |-> 0, n |-> 0]
Out(i) == IF i = K THEN 1 ELSE i + 1  \* queue written by stage i
Init == /\ q = [i \in St |-> IF i = 1 THEN [j \in 1..NB |-> [b |-> j, n |-> Size]] ELSE <<>>]
        /\ cur = [i \in St |-> None] /\ pc = [i \in St |-> "take"] /\ pos = [i \in St |-> 0]
        /\ mem = [b \in 1..NB |-> [j \in 1..Size |-> 0]]
        /\ seen = [i \in St |-> <<>>] /\ sent = [i \in St |-> <<>>] /\ wrote = 0 /\ ended = [i \in St |-> 0] /\ drained = FALSE
Put(i, x) == q' = [q EXCEPT ![Out(i)] = Append(@, x)]
Room(i) == Len(q[Out(i)]) < Cap
Take(i) == /\ pc[i] = "take" /\ q[i] # <<>> /\ cur' = [cur EXCEPT ![i] = Head(q[i])] /\ q' = [q EXCEPT ![i] = Tail(@)]
           /\ pos' = [pos EXCEPT ![i] = 0]
           /\ pc' = [pc EXCEPT ![i] = IF Head(q[i]).b = 0 THEN "poison" ELSE IF i = 1 THEN "fill" ELSE IF i = K THEN "give" ELSE "read"]
           /\ UNCHANGED <<mem, seen, sent, wrote, ended, drained>>
\* the source writes records; it may pass a block on early (blocks of any size, also empty)
Fill == /\ pc[1] = "fill" /\ LET c == cur[1] IN
           \/ /\ wrote < N /\ pos[1] < c.n
              /\ wrote' = wrote + 1 /\ mem' = [mem EXCEPT ![c.b][pos[1] + 1] = wrote + 1]
              /\ sent' = [sent EXCEPT ![1] = Append(@, wrote + 1)] /\ pos' = [pos EXCEPT ![1] = @ + 1]
              /\ UNCHANGED <<q, cur, pc, seen, ended, drained>>
           \/ /\ pos[1] = c.n \/ (pos[1] > 0 /\ (wrote = N \/ Variant = "early"))
              /\ cur' = [cur EXCEPT ![1].n = pos[1]] /\ pc' = [pc EXCEPT ![1] = "give"]
              /\ UNCHANGED <<q, pos, mem, seen, sent, wrote, ended, drained>>
           \/ /\ wrote = N /\ pos[1] = 0 /\ pc' = [pc EXCEPT ![1] = "last"]
              /\ UNCHANGED <<q, cur, pos, mem, seen, sent, wrote, ended, drained>>
\* poison instead of the block that is held
Last == /\ pc[1] = "last" /\ Room(1) /\ (IF Variant = "nopoison" THEN q' = q ELSE Put(1, Poison))
        /\ cur' = [cur EXCEPT ![1] = None] /\ pc' = [pc EXCEPT ![1] = IF Variant = "twice" THEN "again" ELSE "end"]
        /\ ended' = [ended EXCEPT ![1] = @ + 1]
        /\ UNCHANGED <<pos, mem, seen, sent, wrote, drained>>
Again == /\ pc[1] = "again" /\ Room(1) /\ Put(1, Poison) /\ pc' = [pc EXCEPT ![1] = "end"]
         /\ UNCHANGED <<cur, pos, mem, seen, sent, wrote, ended, drained>>
Read(i) == /\ pc[i] = "read" /\ LET c == cur[i] IN
              \/ /\ pos[i] < c.n
                 /\ LET v == mem[c.b][pos[i] + 1] IN
                    /\ seen' = [seen EXCEPT ![i] = Append(@, v)]
                    /\ IF i = Drop THEN UNCHANGED <<mem, sent>>
                       ELSE mem' = [mem EXCEPT ![c.b][pos[i] + 1] = v + 100] /\ sent' = [sent EXCEPT ![i] = Append(@, v + 100)]
                 /\ pos' = [pos EXCEPT ![i] = @ + 1] /\ UNCHANGED <<q, cur, pc, wrote, ended, drained>>
              \/ /\ pos[i] = c.n
                 /\ LET keep == SelectSeq(SubSeq(mem[c.b], 1, c.n), LAMBDA v : v % 2 = 0) IN
                    IF i = Drop THEN /\ mem' = [mem EXCEPT ![c.b] = [j \in 1..Size |-> IF j <= Len(keep) THEN keep[j] ELSE @[j]]]
                                     /\ sent' = [sent EXCEPT ![i] = @ \o keep] /\ cur' = [cur EXCEPT ![i].n = Len(keep)]
                    ELSE UNCHANGED <<mem, sent, cur>>
                 /\ pc' = [pc EXCEPT ![i] = "give"] /\ UNCHANGED <<q, pos, seen, wrote, ended, drained>>
Give(i) == /\ pc[i] = "give" /\ Room(i)
           /\ Put(i, IF i = K /\ Variant # "norecycle" THEN [cur[i] EXCEPT !.n = Size] ELSE cur[i])
           /\ (IF Variant = "keep" /\ i = 2 THEN UNCHANGED cur ELSE cur' = [cur EXCEPT ![i] = None])
           /\ pc' = [pc EXCEPT ![i] = IF Variant = "keep" /\ i = 2 /\ q[i] = <<>> THEN "read" ELSE "take"]
           /\ UNCHANGED <<pos, mem, seen, sent, wrote, ended, drained>>
Pass(i) == /\ pc[i] = "poison" /\ Room(i) /\ (IF Variant = "swallow" /\ i = 2 THEN q' = q ELSE Put(i, Poison))
           /\ pc' = [pc EXCEPT ![i] = "end"] /\ ended' = [ended EXCEPT ![i] = @ + 1]
           /\ cur' = [cur EXCEPT ![i] = None] /\ UNCHANGED <<pos, mem, seen, sent, wrote, drained>>
\* the owner waits for the stages, then empties the front queue up to the poison
Drain == /\ \A i \in St : pc[i] = "end" /\ ~drained
         /\ q[1] # <<>> /\ Len(q[1]) = NB /\ q[1][NB] = Poison
         /\ drained' = TRUE /\ q' = [q EXCEPT ![1] = <<>>]
         /\ UNCHANGED <<cur, pc, pos, mem, seen, sent, wrote, ended>>
Stage(i) == Take(i) \/ (i = 1 /\ (Fill \/ Last \/ Again)) \/ Read(i) \/ Give(i) \/ Pass(i)
Next == (\E i \in St : Stage(i)) \/ Drain \/ (drained /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Drain) /\ \A i \in St : WF_vars(Stage(i))
IsPrefix1(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
\* every record once, in order, as the stage before left it
InOrder == \A i \in 2..(K - 1) : IsPrefix1(seen[i], sent[i - 1])
\* a block is in one place
Held(b) == Cardinality({i \in St : cur[i].b = b}) + Cardinality({<<i, j>> \in St \X (1..(NB + 1)) : j <= Len(q[i]) /\ q[i][j].b = b})
OnePlace == \A b \in 1..NB : Held(b) <= 1
\* nobody ever waits for room, and the end comes once
NeverFull == \A i \in St : Len(q[i]) <= NB
EndOnce == \A i \in St : ended[i] <= 1
AllSeen == drained => \A i \in 2..(K - 1) : seen[i] = sent[i - 1]
NothingLeft == drained => \A i \in St : q[i] = <<>>
Finishes == <>drained
=============================================================================
