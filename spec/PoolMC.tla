------------------------------ MODULE PoolMC ------------------------------
(* Pools over iterations, each a fresh run of the program: what was stored is read back, the
   k best of the current forest are added, the pool is stored again.  A candidate in memory
   carries a form (order of its features, low digits), which storing changes.
   Variant: "right"; "form" recognises candidates by their form; "shared" uses one file for
   all sentences; "lossy" loses candidates without features when reading.                  *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Sents, Cands, Iter, Variant
VARIABLES run, at, mem, disk, seen
vars == <<run, at, mem, disk, seen>>
Forms == {"made", "stored"}
Item == Cands \X Forms
file(s) == IF Variant = "shared" THEN 0 ELSE s
Files == {file(s) : s \in 1..Sents}
Same(a, b) == IF Variant = "form" THEN a = b ELSE a[1] = b[1]
Put(P, x) == IF \E q \in P : Same(q, x) THEN P ELSE P \cup {x}
Init == run = 1 /\ at = 1 /\ mem = {} /\ disk = [f \in Files |-> {}] /\ seen = [s \in 1..Sents |-> {}]
\* one sentence of one run: load, add a list, store
Step == /\ run <= Iter /\ at <= Sents
        /\ \E L \in SUBSET Cands \ {{}} :
             LET loaded == {<<c[1], "stored">> : c \in {d \in disk[file(at)] : ~(Variant = "lossy" /\ d[1] = CHOOSE z \in Cands : TRUE)}}
                 kept == {x \in loaded : \A c \in L : ~Same(x, <<c, "made">>)}
                 new == kept \cup {<<c, "made">> : c \in L} IN
             /\ mem' = new
             /\ disk' = [disk EXCEPT ![file(at)] = {<<c[1], "stored">> : c \in new} \cup (IF Variant = "form" THEN new ELSE {})]
             /\ seen' = [seen EXCEPT ![at] = @ \cup L]
        /\ IF at = Sents THEN at' = 1 /\ run' = run + 1 ELSE at' = at + 1 /\ run' = run
Next == Step
Last == IF at = 1 THEN Sents ELSE at - 1
\* every distinct candidate of this sentence once, and none of another
Once == (run > 1 \/ at > 1) => /\ {c[1] : c \in mem} = seen[Last]
                               /\ Cardinality(mem) = Cardinality(seen[Last])
Kept == \A s \in 1..Sents : Variant = "right" => {c[1] : c \in disk[file(s)]} = seen[s]
=============================================================================
