---------------------------- MODULE SentServer ----------------------------
(* The sentence server as its users see it: an observer that follows the     *)
(* events at its boundary (lines fed to its input, clients connecting, lines *)
(* sent to them, replies, connections closed by either side, output lines,   *)
(* exit) and rejects what the server must never do.  The same observer       *)
(* judges the detailed model (SentServerMC) and the real server              *)
(* (SentServerTrace).                                                        *)
(*  - every line is with at most one client at a time; a line is handed out  *)
(*    again only if its client left without replying and it is not yet out;  *)
(*  - the output is the replies in input order;                              *)
(*  - a client is sent away only at the end of the input and only while no   *)
(*    abandoned line waits;                                                  *)
(*  - the server gives up only when no client is left, then prints what is   *)
(*    known and an empty line for each unfinished one, and fails;            *)
(*  - it ends normally only when everything is printed; it never hangs while *)
(*    it could go on.                                                        *)
EXTENDS Integers, Sequences, SequencesExt
SYNCH == "===SYNCH==="
NoClient == [st |-> "none", reg |-> FALSE, auth |-> TRUE, has |-> 0]
Fresh(nc, stay) == [lines |-> <<>>, eof |-> FALSE, oi |-> 1, oj |-> 1,
                    cl |-> [c \in 1..nc |-> NoClient], sure |-> {}, panic |-> FALSE,
                    ended |-> FALSE, stay |-> stay, bad |-> ""]
Bad(A, why) == IF A.bad = "" THEN [A EXCEPT !.bad = why] ELSE A
Done(l) == l.st \in {"ans", "part", "echo"}
Open(A, c) == A.cl[c].st = "open"
\* the line is with a client that is still there
Held(A, i) == A.lines[i].st = "run" /\ Open(A, A.lines[i].by)
Out(A, i) == i < A.oi \/ (i = A.oi /\ A.oj > 1)
Unfinished(A) == \E i \in 1..Len(A.lines) : A.lines[i].st = "run"
\* how far a line at the head of the output may advance
Advance(A) == LET l == A.lines[A.oi] IN
  IF A.oj = Len(l.rep) THEN [A EXCEPT !.oi = @ + 1, !.oj = 1] ELSE [A EXCEPT !.oj = @ + 1]
Alone(A) == \A c \in DOMAIN A.cl : A.cl[c].reg => A.cl[c].st # "open"
Feed(A, t) ==
  IF A.eof THEN Bad(A, "harness: line after end of input")
  ELSE [A EXCEPT !.lines = Append(@, [t |-> t, st |-> IF t = SYNCH THEN "echo" ELSE "new", by |-> 0,
                                      rep |-> IF t = SYNCH THEN <<t>> ELSE <<>>])]
Send(A, c, t) ==
  LET can == {i \in 1..Len(A.lines) : /\ A.lines[i].t = t
                                      /\ \/ A.lines[i].st = "new"
                                         \/ A.lines[i].st = "run" /\ ~Held(A, i)
                                         \/ A.lines[i].st = "part" /\ ~Out(A, i)}
      i == CHOOSE i \in can : \A j \in can : i <= j IN
  IF A.ended \/ A.panic THEN Bad(A, "line sent after giving up")
  ELSE IF A.cl[c].st \in {"none", "gone"} \/ ~A.cl[c].auth THEN Bad(A, "line sent to somebody who is no client")
  ELSE IF A.cl[c].has # 0 THEN Bad(A, "second line sent to a busy client")
  ELSE IF can = {} THEN Bad(A, "line sent that nobody has to translate")
  ELSE [A EXCEPT !.lines[i] = [t |-> t, st |-> "run", by |-> c, rep |-> <<>>], !.sure = @ \ {i},
                 !.cl[c].has = i, !.cl[c].reg = TRUE]
Reply(A, c, r, part) ==
  LET i == A.cl[c].has IN
  IF i = 0 \/ ~Open(A, c) THEN Bad(A, "harness: reply without line")
  ELSE [A EXCEPT !.lines[i].st = IF part THEN "part" ELSE "ans", !.lines[i].rep = r, !.cl[c].has = 0]
OutLine(A, t) ==
  IF A.ended THEN Bad(A, "output after the end")
  ELSE IF A.oi > Len(A.lines) THEN Bad(A, "output without input")
  ELSE LET l == A.lines[A.oi] IN
    IF Done(l) THEN (IF l.rep[A.oj] = t THEN Advance(A)
                       ELSE IF l.st = "part" /\ t = "" /\ ~A.stay /\ Alone(A) THEN [A EXCEPT !.oi = @ + 1, !.panic = TRUE]
                       ELSE Bad(A, "output is not the reply to the next line"))
    ELSE IF l.st = "run" /\ t = "" /\ ~A.stay /\ Alone(A) THEN [A EXCEPT !.oi = @ + 1, !.panic = TRUE]
    ELSE Bad(A, "output for an unanswered line")
Drop(A, c) ==
  LET B == [A EXCEPT !.cl[c].st = "gone", !.cl[c].has = 0] IN
  IF A.ended \/ A.cl[c].st \in {"closed"} \/ ~A.cl[c].auth THEN B
  ELSE IF A.cl[c].st # "open" THEN Bad(A, "closed a connection that is not there")
  ELSE IF A.cl[c].has # 0 THEN Bad(A, "closed the connection of a busy client")
  ELSE IF ~A.eof THEN Bad(A, "client sent away before the end of the input")
  \* (the session of another client may have taken it already)
  ELSE IF A.sure # {} /\ \A d \in DOMAIN A.cl \ {c} : A.cl[d].st \in {"none", "gone"} \/ A.cl[d].has # 0 THEN Bad(A, "client sent away while an abandoned line waits")
  ELSE B
\* no thread of the server can do anything until something happens outside
Quiet(A) ==
  LET n == Len(A.lines)
      idle == {c \in DOMAIN A.cl : Open(A, c) /\ A.cl[c].auth /\ A.cl[c].has = 0}
      left == {i \in 1..n : A.lines[i].st = "run" /\ ~Held(A, i)}
      B == [A EXCEPT !.sure = left,
                     !.cl = [c \in DOMAIN @ |-> [@[c] EXCEPT !.reg = @ \/ (A.cl[c].st = "open" /\ A.cl[c].auth)]]] IN
  IF A.ended THEN A
  ELSE IF \E i, j \in 1..n : i < j /\ A.lines[i].st = "new" /\ A.lines[j].st \in {"run", "ans"} THEN Bad(A, "line skipped")
  ELSE IF idle # {} /\ \E i \in 1..n : A.lines[i].st = "new" THEN Bad(A, "idle client but unsent line")
  ELSE IF idle # {} /\ A.eof THEN Bad(A, "idle client kept after the end of the input")
  ELSE IF idle # {} /\ left # {} THEN Bad(A, "idle client but abandoned line")
  ELSE IF A.oi <= n /\ A.lines[A.oi].st = "ans" THEN Bad(A, "finished line not printed")
  ELSE IF left # {} /\ ~A.stay /\ Alone(B) THEN Bad(A, "unfinished lines neither reported nor handed out")
  ELSE B
Exit(A, code) ==
  IF code = 0
  THEN IF A.eof /\ A.oi = Len(A.lines) + 1 THEN [A EXCEPT !.ended = TRUE] ELSE Bad(A, "normal end before everything is printed")
  ELSE IF code = 1
  THEN IF /\ ~A.stay /\ Alone(A)
          /\ A.panic \/ Unfinished(A) \/ (\E i \in 1..Len(A.lines) : A.lines[i].st = "part")
          /\ \A i \in A.oi..Len(A.lines) : A.lines[i].st \notin {"ans", "run", "part"}
       THEN [A EXCEPT !.ended = TRUE] ELSE Bad(A, "gave up although a client was left, or without reporting")
  ELSE Bad(A, "unexpected exit code")
\* nothing will happen any more
Stuck(A) ==
  IF A.stay \/ \A c \in DOMAIN A.cl : ~A.cl[c].reg \/ ~A.cl[c].auth THEN A ELSE Bad(A, "server hangs")
Step(A, e) ==
  IF A.bad # "" THEN A
  ELSE CASE e.k = "feed" -> Feed(A, e.t)
         [] e.k = "eof" -> [A EXCEPT !.eof = TRUE]
         [] e.k = "conn" -> [A EXCEPT !.cl[e.c] = [NoClient EXCEPT !.st = "open", !.auth = e.auth]]
         [] e.k = "send" -> Send(A, e.c, e.t)
         [] e.k = "reply" -> Reply(A, e.c, e.r, e.part)
         [] e.k = "close" -> [A EXCEPT !.cl[e.c].st = "closed", !.cl[e.c].has = 0]
         [] e.k = "drop" -> Drop(A, e.c)
         [] e.k = "out" -> OutLine(A, e.t)
         [] e.k = "quiet" -> Quiet(A)
         [] e.k = "exit" -> Exit(A, e.code)
         [] e.k = "stuck" -> Stuck(A)
         [] OTHER -> Bad(A, "server crashed")
Good(A) == A.bad = ""
=============================================================================
