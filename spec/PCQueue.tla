---------------------------- MODULE PCQueue ----------------------------
(* The bounded blocking first-in first-out queue that util::PCQueue promises to be, as a
   sequential object, and the sets of its states that explain a concurrent history.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
\* a configuration: the queue contents, and for each thread with an operation in progress
\*   [k |-> "p"/"c"/"-", v |-> value put or taken, lin |-> taken effect yet]
Idle == [k |-> "-", v |-> 0, lin |-> FALSE]
Init0(T) == [q |-> <<>>, p |-> [t \in 1..T |-> Idle]]
CanPut(c, t, cap) == c.p[t].k = "p" /\ ~c.p[t].lin /\ Len(c.q) < cap
CanTake(c, t) == c.p[t].k = "c" /\ ~c.p[t].lin /\ c.q # <<>>
PutStep(c, t) == [q |-> Append(c.q, c.p[t].v), p |-> [c.p EXCEPT ![t].lin = TRUE]]
TakeStep(c, t) == [q |-> Tail(c.q), p |-> [c.p EXCEPT ![t].lin = TRUE, ![t].v = Head(c.q)]]
Steps(c, cap) == {PutStep(c, t) : t \in {x \in DOMAIN c.p : CanPut(c, x, cap)}}
                 \cup {TakeStep(c, t) : t \in {x \in DOMAIN c.p : CanTake(c, x)}}
RECURSIVE Reach(_, _, _)
Reach(S, new, cap) == IF new = {} THEN S
                      ELSE LET n == (UNION {Steps(c, cap) : c \in new}) \ S IN Reach(S \cup n, n, cap)
Close(S, cap) == Reach(S, S, cap)
\* one event of the history: <<thread, kind, value>>
\*   0 put called, 1 put returned, 2 take called, 3 take returned v, 4 put failed, 5 take failed, 6 thread finished
Apply(S, e, cap) ==
   LET t == e[1] IN
   CASE e[2] = 0 -> Close({[c EXCEPT !.p[t] = [k |-> "p", v |-> e[3], lin |-> FALSE]] : c \in S}, cap)
     [] e[2] = 2 -> Close({[c EXCEPT !.p[t] = [k |-> "c", v |-> 0, lin |-> FALSE]] : c \in S}, cap)
     [] e[2] = 1 -> {[c EXCEPT !.p[t] = Idle] : c \in {x \in S : x.p[t].lin /\ x.p[t].k = "p"}}
     [] e[2] = 3 -> {[c EXCEPT !.p[t] = Idle] : c \in {x \in S : x.p[t].lin /\ x.p[t].k = "c" /\ x.p[t].v = e[3]}}
     [] e[2] \in {4, 5} -> {[c EXCEPT !.p[t] = Idle] : c \in {x \in S : ~x.p[t].lin /\ x.p[t].k # "-"}}
     [] e[2] = 6 -> {c \in S : c.p[t].k = "-"}
     [] OTHER -> {}
RECURSIVE Explain(_, _, _, _)
Explain(S, ev, i, cap) == IF i > Len(ev) \/ S = {} THEN S ELSE Explain(Apply(S, ev[i], cap), ev, i + 1, cap)
\* a history is explained if some order of effects fits it
Explained(ev, T, cap) == Explain({Init0(T)}, ev, 1, cap)
\* no operation in progress could take effect: threads may be blocked for ever only then
Blocked(c, cap) == /\ \A t \in DOMAIN c.p : c.p[t].k # "-" => (~c.p[t].lin /\ ~CanPut(c, t, cap) /\ ~CanTake(c, t))
                   /\ \E t \in DOMAIN c.p : c.p[t].k # "-"
AllIdle(c) == \A t \in DOMAIN c.p : c.p[t].k = "-"
=============================================================================
