----------------------------- MODULE EditDistMC -----------------------------
(* Two machines on all short strings: an edit machine that changes one word  *)
(* at a time (the recurrence must give its shortest run), and the greedy     *)
(* shift search of translation edit rate with its choices left open.         *)
EXTENDS EditDist, TLC
CONSTANTS A, MaxL, Mode
VARIABLES h, r, cur, n
vars == <<h, r, cur, n>>
Strs(m) == UNION {[1..k -> A] : k \in 0..m}
Init == h \in Strs(MaxL) /\ r \in Strs(MaxL) /\ cur = h /\ n = 0
Edits(s) == {SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in 1..Len(s)} \cup
            {[s EXCEPT ![i] = w] : i \in 1..Len(s), w \in A} \cup
            {SubSeq(s, 1, i) \o <<w>> \o SubSeq(s, i + 1, Len(s)) : i \in 0..Len(s), w \in A}
Edit == Mode = "edit" /\ n < MaxL /\ \E x \in Edits(cur) : Len(x) <= MaxL /\ cur' = x /\ n' = n + 1 /\ UNCHANGED <<h, r>>
\* a shift is made if it saves more than it costs, or just its cost
Shift == Mode = "shift" /\ \E x \in Moves(cur) : Lev(x, r) + 1 <= Lev(cur, r) /\ cur' = x /\ n' = n + 1 /\ UNCHANGED <<h, r>>
Next == Edit \/ Shift
\* no run of n edits can cover a distance larger than n, and some step always gets closer
EditSound == Mode = "edit" => Lev(h, cur) <= n
EditTight == Mode = "edit" => (Lev(cur, r) = 0 <=> cur = r) /\ (cur # r => \E x \in Edits(cur) : Lev(x, r) = Lev(cur, r) - 1)
Symmetric == Lev(h, r) = Lev(r, h)
TerSound == Mode = "shift" =>
   /\ n + Lev(cur, r) <= Lev(h, r)
   /\ cur \in Reach({h}, n)
   /\ (n + Lev(cur, r) = 0 <=> h = r)
   /\ ((~ENABLED Shift /\ n = 0) => Lev(cur, r) = Lev(h, r))
=============================================================================
