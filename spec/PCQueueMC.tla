---------------------------- MODULE PCQueueMC ----------------------------
(* The implementation of the queue: two counting semaphores, a circular buffer, one lock for
   the producers and one for the consumers, copies that may fail.  It refines PCQueue.     *)
EXTENDS PCQueue, TLC, IOUtils
CONSTANTS Cap, Threads, Variant
\* program of thread t: sequence of <<"p"/"c", value, fails>>
Prog(t) == CASE t = 1 -> <<<<"p", 1, FALSE>>, <<"p", 2, FALSE>>>>
             [] t = 2 -> <<<<"p", 3, TRUE>>, <<"p", 4, FALSE>>>>
             [] t = 3 -> <<<<"c", 0, FALSE>>, <<"c", 0, TRUE>>>>
             [] t = 4 -> <<<<"c", 0, FALSE>>, <<"c", 0, FALSE>>>>
             [] t = 5 -> <<<<"p", 5, FALSE>>, <<"c", 0, FALSE>>>>
VARIABLES empty, used, slot, pat, cat, plock, clock, pc, at, val, ev
vars == <<empty, used, slot, pat, cat, plock, clock, pc, at, val, ev>>
T == 1..Threads
Init == /\ empty = Cap /\ used = 0 /\ slot = [i \in 0..(Cap - 1) |-> 0] /\ pat = 0 /\ cat = 0
        /\ plock = 0 /\ clock = 0 /\ pc = [t \in T |-> "next"] /\ at = [t \in T |-> 1] /\ val = [t \in T |-> 0]
        /\ ev = {Init0(Threads)}
op(t) == Prog(t)[at[t]]
Note(t, k, v) == ev' = Apply(ev, <<t, k, v>>, Cap)
Next1(t) == /\ pc[t] = "next" /\ at[t] <= Len(Prog(t))
            /\ pc' = [pc EXCEPT ![t] = IF op(t)[1] = "p" THEN "pwait" ELSE "cwait"]
            /\ IF op(t)[1] = "p" THEN Note(t, 0, op(t)[2]) ELSE Note(t, 2, 0)
            /\ UNCHANGED <<empty, used, slot, pat, cat, plock, clock, at, val>>
PWait(t) == /\ pc[t] = "pwait" /\ empty > 0 /\ empty' = empty - 1 /\ pc' = [pc EXCEPT ![t] = "plock"]
            /\ UNCHANGED <<used, slot, pat, cat, plock, clock, at, val, ev>>
PLock(t) == /\ pc[t] = "plock" /\ (plock = 0 \/ Variant = "nolock") /\ plock' = t
            /\ pc' = [pc EXCEPT ![t] = IF op(t)[3] THEN "pfail" ELSE "pcopy"]
            /\ UNCHANGED <<empty, used, slot, pat, cat, clock, at, val, ev>>
PCopy(t) == /\ pc[t] = "pcopy" /\ slot' = [slot EXCEPT ![pat] = op(t)[2]] /\ pc' = [pc EXCEPT ![t] = "padv"]
            /\ UNCHANGED <<empty, used, pat, cat, plock, clock, at, val, ev>>
PAdv(t) == /\ pc[t] = "padv" /\ pat' = (pat + 1) % Cap /\ plock' = 0 /\ pc' = [pc EXCEPT ![t] = "ppost"]
           /\ UNCHANGED <<empty, used, slot, cat, clock, at, val, ev>>
PPost(t) == /\ pc[t] = "ppost" /\ used' = used + 1 /\ pc' = [pc EXCEPT ![t] = "next"] /\ at' = [at EXCEPT ![t] = @ + 1]
            /\ Note(t, 1, op(t)[2]) /\ UNCHANGED <<empty, slot, pat, cat, plock, clock, val>>
PFail(t) == /\ pc[t] = "pfail" /\ empty' = (IF Variant = "norepost" THEN empty ELSE empty + 1)
            /\ plock' = 0 /\ pc' = [pc EXCEPT ![t] = "next"] /\ at' = [at EXCEPT ![t] = @ + 1]
            /\ Note(t, 4, 0) /\ UNCHANGED <<used, slot, pat, cat, clock, val>>
CWait(t) == /\ pc[t] = "cwait" /\ used > 0 /\ used' = used - 1
            /\ empty' = (IF Variant = "postfirst" THEN empty + 1 ELSE empty) /\ pc' = [pc EXCEPT ![t] = "clock"]
            /\ UNCHANGED <<slot, pat, cat, plock, clock, at, val, ev>>
CLock(t) == /\ pc[t] = "clock" /\ clock = 0 /\ clock' = t
            /\ pc' = [pc EXCEPT ![t] = IF op(t)[3] THEN "cfail" ELSE "ccopy"]
            /\ UNCHANGED <<empty, used, slot, pat, cat, plock, at, val, ev>>
CCopy(t) == /\ pc[t] = "ccopy" /\ val' = [val EXCEPT ![t] = slot[cat]] /\ pc' = [pc EXCEPT ![t] = "cadv"]
            /\ UNCHANGED <<empty, used, slot, pat, cat, plock, clock, at, ev>>
CAdv(t) == /\ pc[t] = "cadv" /\ cat' = (cat + 1) % Cap /\ clock' = 0 /\ pc' = [pc EXCEPT ![t] = "cpost"]
           /\ UNCHANGED <<empty, used, slot, pat, plock, at, val, ev>>
CPost(t) == /\ pc[t] = "cpost" /\ empty' = (IF Variant = "postfirst" THEN empty ELSE empty + 1)
            /\ pc' = [pc EXCEPT ![t] = "next"] /\ at' = [at EXCEPT ![t] = @ + 1]
            /\ Note(t, 3, val[t]) /\ UNCHANGED <<used, slot, pat, cat, plock, clock, val>>
CFail(t) == /\ pc[t] = "cfail" /\ used' = used + 1 /\ clock' = 0 /\ pc' = [pc EXCEPT ![t] = "next"] /\ at' = [at EXCEPT ![t] = @ + 1]
            /\ cat' = (IF Variant = "advance" THEN (cat + 1) % Cap ELSE cat)
            /\ Note(t, 5, 0) /\ UNCHANGED <<empty, slot, pat, plock, val>>
Step(t) == Next1(t) \/ PWait(t) \/ PLock(t) \/ PCopy(t) \/ PAdv(t) \/ PPost(t) \/ PFail(t)
           \/ CWait(t) \/ CLock(t) \/ CCopy(t) \/ CAdv(t) \/ CPost(t) \/ CFail(t)
Done == \A t \in T : pc[t] = "next" /\ at[t] > Len(Prog(t))
Next == (\E t \in T : Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t))
\* every reachable history is explained by the sequential queue
Refines == ev # {}
\* whoever is stuck may be stuck
Stuck == (~ENABLED (\E t \in T : Step(t)) /\ ~Done) => \E c \in ev : Blocked(c, Cap)
Counts == empty >= 0 /\ used >= 0 /\ empty + used <= Cap
=============================================================================
