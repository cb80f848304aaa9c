----------------------------- MODULE Alignments -----------------------------
(***************************************************************************)
(* Word alignments as sets of links <<i, j>> and the symmetrisation        *)
(* procedures of the alignment tool, as a state machine: one action per    *)
(* candidate link that the growth loop visits.                             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES a, b,      \* the two input alignments
          cmd,       \* the operation
          res,       \* links accepted so far
          pend,      \* grow: candidates not yet accepted
          scan,      \* candidates still to be visited in this pass
          grew,      \* did this pass accept a link?
          phase      \* "grow" | "finA" | "finB" | "done"

avars == <<a, b, cmd, res, pend, scan, grew, phase>>

GrowCmds == {"grow-diag", "grow-diag-final", "grow-diag-final-and"}
SetCmds  == {"union", "intersect", "invert", "convert", "display"}

LinkLess(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
First(S) == CHOOSE p \in S : \A q \in S : q = p \/ LinkLess(p, q)

Rows(R) == {p[1] : p \in R}
Cols(R) == {p[2] : p \in R}
Neighbour(p, q) == p # q /\ p[1] - q[1] \in {-1, 0, 1} /\ p[2] - q[2] \in {-1, 0, 1}

\* growth rule of grow-diag: touches an accepted link, and one of the two words is still free
Licensed(R, p) == (p[1] \notin Rows(R) \/ p[2] \notin Cols(R)) /\ \E q \in R : Neighbour(p, q)
FinalRule(c, R, p) ==
  IF c = "grow-diag-final" THEN p[1] \notin Rows(R) \/ p[2] \notin Cols(R)
                           ELSE p[1] \notin Rows(R) /\ p[2] \notin Cols(R)

SetResult(c, A, B) ==
  CASE c = "union"     -> A \cup B
    [] c = "intersect" -> A \cap B
    [] c = "invert"    -> {<<p[2], p[1]>> : p \in A}
    [] OTHER           -> A

Start(A, B, c) ==
  /\ a = A /\ b = B /\ cmd = c
  /\ IF c \in GrowCmds
       THEN /\ res = A \cap B
            /\ pend = (A \cup B) \ (A \cap B)
            /\ scan = pend
            /\ grew = FALSE
            /\ phase = "grow"
       ELSE /\ res = SetResult(c, A, B)
            /\ pend = {} /\ scan = {} /\ grew = FALSE
            /\ phase = "done"

GrowVisit ==
  /\ phase = "grow" /\ scan # {}
  /\ LET p == First(scan) IN
       /\ scan' = scan \ {p}
       /\ IF Licensed(res, p)
            THEN res' = res \cup {p} /\ pend' = pend \ {p} /\ grew' = TRUE
            ELSE UNCHANGED <<res, pend, grew>>
  /\ UNCHANGED <<a, b, cmd, phase>>

GrowPassEnd ==
  /\ phase = "grow" /\ scan = {}
  /\ IF grew THEN /\ scan' = pend /\ grew' = FALSE /\ phase' = "grow"
             ELSE /\ grew' = FALSE
                  /\ phase' = (IF cmd = "grow-diag" THEN "done" ELSE "finA")
                  /\ scan' = (IF cmd = "grow-diag" THEN {} ELSE a \ res)
  /\ UNCHANGED <<a, b, cmd, res, pend>>

FinalVisit ==
  /\ phase \in {"finA", "finB"} /\ scan # {}
  /\ LET p == First(scan) IN
       /\ scan' = scan \ {p}
       /\ res' = IF FinalRule(cmd, res, p) THEN res \cup {p} ELSE res
  /\ UNCHANGED <<a, b, cmd, pend, grew, phase>>

FinalEnd ==
  /\ phase \in {"finA", "finB"} /\ scan = {}
  /\ IF phase = "finA" THEN phase' = "finB" /\ scan' = b \ res
                       ELSE phase' = "done" /\ scan' = {}
  /\ UNCHANGED <<a, b, cmd, res, pend, grew>>

AStep == GrowVisit \/ GrowPassEnd \/ FinalVisit \/ FinalEnd

------------------------------------------------------------------------------
(* Properties of the design *)
Between == cmd \in GrowCmds => (a \cap b) \subseteq res /\ res \subseteq (a \cup b)
\* every link beyond the intersection was licensed: it has a word no other
\* *earlier* link used; as a state property: it is the only link of its row or
\* column, or its partner arrived later -- checked as an action property below.
GrowLicensed == [][ (phase = "grow" /\ res' # res) =>
                     \E p \in (a \cup b) \ res : res' = res \cup {p} /\ Licensed(res, p) ]_avars
FinalLicensed == [][ (phase \in {"finA", "finB"} /\ res' # res) =>
                     \E p \in (IF phase = "finA" THEN a ELSE b) \ res : res' = res \cup {p} /\ FinalRule(cmd, res, p) ]_avars
\* grow-diag stops only when nothing more is licensed
GrowMaximal == (phase = "done" /\ cmd = "grow-diag") => \A p \in (a \cup b) \ res : ~Licensed(res, p)
FinalMaximal == (phase = "done" /\ cmd \in GrowCmds \ {"grow-diag"}) =>
                   \A p \in (a \cup b) \ res : ~FinalRule(cmd, res, p)
Monotone == [][res \subseteq res']_avars
=============================================================================
