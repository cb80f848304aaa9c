---------------------------- MODULE ExtSortMC ----------------------------
(* Merge passes over sorted runs on disk, with bounded memory, then a lazy final merge.     *)
EXTENDS ExtSort, TLC
CONSTANTS MaxRuns, MaxLen, MaxLazy, Seeds, Variant
VARIABLES cfg, ins, outs, ph, out, before
vars == <<cfg, ins, outs, ph, out, before>>
Key(s, r, i) == ((s * 7 + r * 5 + i * 3 + r * i * s) % 5)
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Run(s, r, n) == SortSeq([i \in 1..n |-> <<Key(s, r, i), r * 8 + i>>], Less)
\* runs of the lengths given; every block but the last one is full in ordinary use, but any length may occur
Lens == UNION {[1..n -> 1..MaxLen] : n \in 0..MaxRuns}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Total(R) == FoldLeft(LAMBDA acc, x : acc + Len(x), 0, R)
Arity(c) == IF Variant = "arity" THEN Max2(1, c.L \div c.B) + 1 ELSE Max2(1, c.L \div c.B)
Merged(G) == LET all == SortSeq(FlattenSeq(G), Less) IN
   IF ~cfg.comb \/ Variant = "nocombine" THEN all
   ELSE FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ Last(acc)[1] = x[1] THEN Append(Front(acc), <<x[1], Last(acc)[2] + x[2]>>) ELSE Append(acc, x), <<>>, all)
\* runs that fit into mem when each gets a buffer
RECURSIVE Fit(_, _, _, _)
Fit(R, per, mem, used) == IF R = <<>> THEN 0
   ELSE IF used + Min2(per, Len(Head(R))) > mem THEN 0
   ELSE 1 + Fit(Tail(R), per, mem, used + Min2(per, Len(Head(R))))
Per(c, mem, n) == Max2(c.B, mem \div n)
Group(c, R, mem) == Fit(R, Per(c, mem, Len(R)), mem, 0)
Init == /\ cfg \in {[lens |-> l, B |-> b, M |-> m, L |-> z, s |-> s, comb |-> c] :
                     l \in Lens, b \in 1..2, m \in 4..9, z \in 0..MaxLazy, s \in 1..Seeds, c \in BOOLEAN}
        /\ cfg.M >= 4 * cfg.B
        /\ ins = [r \in 1..Len(cfg.lens) |-> Run(cfg.s, r, cfg.lens[r])] /\ outs = <<>> /\ ph = "check" /\ out = <<>> /\ before = <<0, 0>>
Check == /\ ph = "check"
         /\ IF Len(ins) <= 1 \/ Len(ins) <= Arity(cfg) \/ Total(ins) <= cfg.L
            THEN ph' = "lazy" /\ UNCHANGED before ELSE ph' = "pass" /\ before' = <<Len(ins), Min2(cfg.M - (IF Variant = "starve" THEN 3 ELSE 2) * cfg.B, Total(ins))>>
         /\ UNCHANGED <<cfg, ins, outs, out>>
\* memory is fixed for the pass: the amount left over from the start of the pass
Pass == /\ ph = "pass" /\ ins # <<>>
        /\ LET g == Group(cfg, ins, before[2]) IN
           IF g < 2 /\ g < Len(ins) THEN ph' = "bug" /\ UNCHANGED <<ins, outs>>
           ELSE outs' = Append(outs, Merged(SubSeq(ins, 1, g))) /\ ins' = SubSeq(ins, g + 1, Len(ins)) /\ UNCHANGED ph
        /\ UNCHANGED <<cfg, out, before>>
EndPass == /\ ph = "pass" /\ ins = <<>> /\ ins' = outs /\ outs' = <<>> /\ ph' = (IF Len(outs) < before[1] THEN "check" ELSE "bug")
           /\ UNCHANGED <<cfg, out, before>>
Lazy == /\ ph = "lazy"
        /\ IF Len(ins) = 0 THEN out' = <<>> /\ ph' = "done"
           ELSE IF Len(ins) = 1 THEN out' = ins[1] /\ ph' = "done"
           ELSE IF Group(cfg, ins, cfg.L) < Len(ins) THEN ph' = "bug" /\ UNCHANGED out
           ELSE out' = Merged(ins) /\ ph' = "done"
        /\ UNCHANGED <<cfg, ins, outs, before>>
Next == Check \/ Pass \/ EndPass \/ Lazy \/ (ph \in {"done", "bug"} /\ UNCHANGED vars)
Whole == FlattenSeq([r \in 1..Len(cfg.lens) |-> Run(cfg.s, r, cfg.lens[r])])
NoBug == ph # "bug"
Right == ph = "done" => SortOk(Whole, out, cfg.comb, Len(cfg.lens))
=============================================================================
