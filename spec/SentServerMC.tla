--------------------------- MODULE SentServerMC ---------------------------
(* The algorithm of the server: one session per client, the queue of lines  *)
(* and its lock, the input and its lock, the number of clients.  Every      *)
(* critical section is one step; the environment feeds lines, connects,     *)
(* replies and disconnects at any time.  A is the observer of SentServer.   *)
(* The constants switch the repairs off, one by one: then TLC finds the     *)
(* behaviours the observer rejects.                                         *)
EXTENDS SentServer, FiniteSets, TLC
CONSTANTS Lines,          \* the lines of the input
          NC,             \* number of clients
          Losses,         \* how many clients may disconnect
          Stay,
          RecheckAtEof, PollInput, PanicOnDismiss, FullFlush
VARIABLES fed, eof,       \* environment: how much input was written
          got,            \* lines the server has read
          q,              \* queue: sequence of [id, st, rep]
          more,           \* the server still expects input (ptail # NULL)
          inmx,           \* holder of the input lock, 0 if free
          ncl,            \* n_clients
          pc, cur, rd,    \* per session: where it is, its sentence, what it read
          sock,           \* per client: "none", "open", "closed"; replies wait in inbox
          inbox, down,    \* down: the process has ended
          losses, A
vars == <<fed, eof, got, q, more, inmx, ncl, pc, cur, rd, sock, inbox, down, losses, A>>
Cl == 1..NC
L0 == <<>>
L1 == <<"a">>
L2 == <<"a", "b">>
LS == <<"a", SYNCH>>
LS2 == <<SYNCH, "b", "c">>
L3 == <<"a", "b", "c">>
Init == /\ fed = 0 /\ eof = FALSE /\ got = 0 /\ q = <<>> /\ more = TRUE /\ inmx = 0 /\ ncl = 0
        /\ pc = [c \in Cl |-> "none"] /\ cur = [c \in Cl |-> 0] /\ rd = [c \in Cl |-> ""]
        /\ sock = [c \in Cl |-> "none"] /\ inbox = [c \in Cl |-> <<>>] /\ down = FALSE /\ losses = 0
        /\ A = Fresh(NC, Stay)
E1(e) == A' = Step(A, e)
Es(es) == A' = FoldLeft(Step, A, es)
Aborted == {k \in 1..Len(q) : q[k].st = "aborted"}
Pos(id) == CHOOSE k \in 1..Len(q) : q[k].id = id
First(S) == CHOOSE k \in S : \A j \in S : k <= j
\* the output of a queue: finished prefix
RECURSIVE Prefix(_)
Prefix(s) == IF s = <<>> \/ s[1].st # "finished" THEN <<>> ELSE <<s[1]>> \o Prefix(Tail(s))
OutEv(s) == [i \in 1..Len(s) |-> [k |-> "out", t |-> IF s[i].st = "finished" THEN s[i].rep ELSE ""]]
\* ---------------------------------------------------------- environment
FeedA == /\ ~eof
         /\ IF fed < Len(Lines) THEN fed' = fed + 1 /\ eof' = eof /\ E1([k |-> "feed", t |-> Lines[fed + 1]])
            ELSE eof' = TRUE /\ fed' = fed /\ E1([k |-> "eof"])
         /\ UNCHANGED <<got, q, more, inmx, ncl, pc, cur, rd, sock, inbox, losses>>
Connect(c) == /\ sock[c] = "none" /\ sock' = [sock EXCEPT ![c] = "open"] /\ pc' = [pc EXCEPT ![c] = "begin"]
              /\ E1([k |-> "conn", c |-> c, auth |-> TRUE])
              /\ UNCHANGED <<fed, eof, got, q, more, inmx, ncl, cur, rd, inbox, losses>>
ReplyA(c) == /\ sock[c] = "open" /\ A.cl[c].has # 0
             /\ LET r == A.lines[A.cl[c].has].t \o "/" IN
                /\ inbox' = [inbox EXCEPT ![c] = Append(@, r)]
                /\ E1([k |-> "reply", c |-> c, r |-> <<r>>, part |-> FALSE])
             /\ UNCHANGED <<fed, eof, got, q, more, inmx, ncl, pc, cur, rd, sock, losses>>
Leave(c) == /\ sock[c] = "open" /\ losses < Losses /\ losses' = losses + 1
            /\ sock' = [sock EXCEPT ![c] = "closed"] /\ E1([k |-> "close", c |-> c])
            /\ UNCHANGED <<fed, eof, got, q, more, inmx, ncl, pc, cur, rd, inbox>>
Environment == ~down /\ down' = down /\ (FeedA \/ \E c \in Cl : Connect(c) \/ ReplyA(c) \/ Leave(c))
\* --------------------------------------------------------------- server
Go(c, p) == pc' = [pc EXCEPT ![c] = p]
Begin(c) == /\ pc[c] = "begin" /\ ncl' = ncl + 1 /\ Go(c, "get")
            /\ UNCHANGED <<fed, eof, got, q, more, inmx, cur, rd, sock, inbox, down, losses, A>>
Take(c, p) == /\ LET k == First(Aborted) IN q' = [q EXCEPT ![k].st = "running"] /\ cur' = [cur EXCEPT ![c] = q[k].id]
              /\ Go(c, p)
Get(c) == /\ pc[c] = "get"
          /\ IF Aborted # {} THEN Take(c, "send") ELSE q' = q /\ cur' = cur /\ Go(c, "lockin")
          /\ UNCHANGED <<fed, eof, got, more, inmx, ncl, rd, sock, inbox, down, losses, A>>
LockIn(c) == /\ pc[c] = "lockin" /\ inmx = 0 /\ inmx' = c /\ Go(c, "input")
             /\ UNCHANGED <<fed, eof, got, q, more, ncl, cur, rd, sock, inbox, down, losses, A>>
\* waiting for input; once in a while a look at the aborted sentences
Input(c) == /\ pc[c] = "input"
            /\ IF got < fed THEN /\ rd' = [rd EXCEPT ![c] = Lines[got + 1]] /\ got' = got + 1 /\ Go(c, "link") /\ UNCHANGED <<q, cur, inmx>>
               ELSE IF eof THEN inmx' = 0 /\ Go(c, "ateof") /\ UNCHANGED <<q, cur, rd, got>>
               ELSE PollInput /\ Aborted # {} /\ Take(c, "send") /\ inmx' = 0 /\ UNCHANGED <<rd, got>>
            /\ UNCHANGED <<fed, eof, more, ncl, sock, inbox, down, losses, A>>
Flush(qq, es) == LET p == Prefix(qq) r == SubSeq(qq, Len(p) + 1, Len(qq)) IN
                 /\ q' = r
                 /\ IF r = <<>> /\ p # <<>> /\ ~more THEN down' = TRUE /\ Es(es \o OutEv(p) \o <<[k |-> "exit", code |-> 0]>>)
                    ELSE down' = down /\ Es(es \o OutEv(p))
Link(c) == /\ pc[c] = "link" /\ inmx' = 0
           /\ LET id == got IN
              IF rd[c] = SYNCH
              THEN q' = Append(q, [id |-> id, st |-> "running", rep |-> SYNCH]) /\ cur' = [cur EXCEPT ![c] = id] /\ Go(c, "echo")
              ELSE q' = Append(q, [id |-> id, st |-> "running", rep |-> rd[c]]) /\ cur' = [cur EXCEPT ![c] = id] /\ Go(c, "send")
           /\ UNCHANGED <<fed, eof, got, more, ncl, rd, sock, inbox, down, losses, A>>
Echo(c) == /\ pc[c] = "echo" /\ Flush([q EXCEPT ![Pos(cur[c])].st = "finished"], <<>>) /\ Go(c, "lockin")
           /\ UNCHANGED <<fed, eof, got, more, inmx, ncl, cur, rd, sock, inbox, losses>>
Panic(qq, es) == /\ down' = TRUE /\ q' = <<>>
                 /\ Es(es \o OutEv(IF FullFlush THEN qq ELSE Prefix(qq)) \o <<[k |-> "exit", code |-> 1]>>)
AtEof(c) == /\ pc[c] = "ateof"
            /\ IF q = <<>> THEN down' = TRUE /\ E1([k |-> "exit", code |-> 0]) /\ UNCHANGED <<q, cur, more, pc>>
               ELSE IF RecheckAtEof /\ Aborted # {} THEN Take(c, "send") /\ UNCHANGED <<more, down, A>>
               ELSE more' = FALSE /\ Go(c, "dismiss") /\ UNCHANGED <<q, cur, down, A>>
            /\ UNCHANGED <<fed, eof, got, inmx, ncl, rd, sock, inbox, losses>>
Dismiss(c) == /\ pc[c] = "dismiss" /\ Go(c, "dismissed") /\ ncl' = ncl - 1 /\ E1([k |-> "drop", c |-> c])
              /\ sock' = [sock EXCEPT ![c] = "gone"]
              /\ UNCHANGED <<fed, eof, got, q, more, inmx, cur, rd, inbox, down, losses>>
Dismissed(c) == /\ pc[c] = "dismissed" /\ Go(c, "over")
                /\ IF PanicOnDismiss /\ ncl = 0 /\ q # <<>> /\ ~Stay THEN Panic(q, <<>>) ELSE UNCHANGED <<q, down, A>>
                /\ UNCHANGED <<fed, eof, got, more, inmx, ncl, cur, rd, sock, inbox, losses>>
Text(c) == q[Pos(cur[c])].rep
SendA(c) == /\ pc[c] = "send" /\ Go(c, "wait") /\ E1([k |-> "send", c |-> c, t |-> Text(c)])
            /\ UNCHANGED <<fed, eof, got, q, more, inmx, ncl, cur, rd, sock, inbox, down, losses>>
Wait(c) == /\ pc[c] = "wait"
           /\ IF inbox[c] # <<>>
              THEN /\ Flush([q EXCEPT ![Pos(cur[c])].st = "finished", ![Pos(cur[c])].rep = inbox[c][1]], <<>>)
                   /\ inbox' = [inbox EXCEPT ![c] = Tail(@)] /\ Go(c, "get") /\ ncl' = ncl
              ELSE /\ sock[c] = "closed" /\ Go(c, "abort") /\ ncl' = ncl - 1 /\ UNCHANGED <<q, down, A, inbox>>
           /\ UNCHANGED <<fed, eof, got, more, inmx, cur, rd, sock, losses>>
Abort(c) == /\ pc[c] = "abort" /\ Go(c, "over")
            /\ LET qq == [q EXCEPT ![Pos(cur[c])].st = "aborted"] IN
               IF ncl = 0 /\ ~Stay THEN Panic(qq, <<>>) ELSE q' = qq /\ UNCHANGED <<down, A>>
            /\ UNCHANGED <<fed, eof, got, more, inmx, ncl, cur, rd, sock, inbox, losses>>
Session(c) == Begin(c) \/ Get(c) \/ LockIn(c) \/ Input(c) \/ Link(c) \/ Echo(c) \/ AtEof(c) \/ Dismiss(c) \/ Dismissed(c) \/ SendA(c) \/ Wait(c) \/ Abort(c)
Server == ~down /\ \E c \in Cl : Session(c)
Next == Environment \/ Server
Fair == /\ WF_vars(~down /\ down' = down /\ FeedA)
        /\ \A c \in Cl : WF_vars(~down /\ down' = down /\ Connect(c)) /\ WF_vars(~down /\ down' = down /\ ReplyA(c)) /\ SF_vars(~down /\ Session(c))
Spec == Init /\ [][Next]_vars /\ Fair
\* ------------------------------------------------------------ properties
Observed == Good(A)
\* whenever nobody in the server can move, the observer must agree that
\* waiting is right
Waiting == (~down /\ ~ENABLED Server) => Good(Step(A, [k |-> "quiet"]))
Ending == (~down /\ ~ENABLED Server /\ ~ENABLED Environment) => Good(Step(A, [k |-> "stuck"]))
\* if a client stays, everything is answered and the server ends normally
Finishes == <>down
Normally == down => (Losses < NC => \/ ~Good(A) \/ A.oi = Len(Lines) + 1)
OneSession == \A c, d \in Cl : c # d /\ pc[c] \in {"wait", "send", "abort"} /\ pc[d] \in {"wait", "send", "abort"} => cur[c] # cur[d]
InOrder == \A i \in 1..(Len(q) - 1) : q[i].id < q[i + 1].id
Clients == ncl = Cardinality({c \in Cl : pc[c] \notin {"none", "begin", "dismissed", "abort", "over"}})
=============================================================================
