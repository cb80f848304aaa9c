---------------------------- MODULE AlignmentsMC ----------------------------
EXTENDS Alignments, TLC
CONSTANTS W, H
Grid == (0..(W-1)) \X (0..(H-1))
MCInit == \E A \in SUBSET Grid, B \in SUBSET Grid, c \in GrowCmds : Start(A, B, c)
MCSpec == MCInit /\ [][AStep]_avars /\ WF_avars(AStep)
Terminates == <>(phase = "done")
\* inversion is an involution and union/intersection are duals of each other
ASSUME \A A \in SUBSET ((0..1) \X (0..1)) : SetResult("invert", SetResult("invert", A, {}), {}) = A
=============================================================================
