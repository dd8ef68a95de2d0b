----------------------------- MODULE SocketTrace -----------------------------
(* Executions of the real server with scripted clients, recorded at the       *)
(* clients' ends of the sockets and at the submitter, against Socket.tla.     *)
(* The first event gives the replica of each request.  Accept and Lose are    *)
(* internal to the server and inferred.                                       *)
EXTENDS Socket, TraceBase

VARIABLES tid, l
tvars == <<vars, tid, l>>
Ev == Traces[tid][l + 1]
Rep(r) == Traces[tid][1].rep[r]
NReq == Len(Traces[tid][1].rep)

TInit == Init /\ tid \in 1..NT /\ l = 1

Is(o) == Ev.e = o /\ l' = l + 1 /\ tid' = tid /\ act' = [op |-> o]
Silent == /\ \E c \in Clients : (Accept(c) \/ Lose(c))
          /\ UNCHANGED <<tid, l>> /\ act' = [op |-> "silent"]

TConn   == Is("conn") /\ Connect(Ev.c)
TDie    == Is("die") /\ Die(Ev.c)
TStatus == Is("rxSTATUS") /\ RxStatus(Ev.c)
TRInit  == Is("rxINIT") /\ Ev.ok /\ \E r \in Requests : r <= NReq /\ Rep(r) = Ev.id /\ RxInit(Ev.c, r)
TPos    == Is("rxPOSDATA") /\ Ev.ok /\ RxPos(Ev.c, Ev.b)
TGet    == Is("rxGETFORCE") /\ RxGet(Ev.c)
TExit   == Is("rxEXIT") /\ Ev.ok /\ RxExit(Ev.c)
TTx     == Is("txSTATUS") /\ TxStatus(Ev.c, Ev.s)
TStall  == Is("stall") /\ Stall(Ev.c)
TPart   == Is("part") /\ TxPart(Ev.c)
TForce  == Is("txFORCE") /\ TxForce(Ev.c)
TSubmit == Is("submit") /\ Submit(Ev.r)
TDone   == Is("done") /\ Ev.ok /\ Ev.tag = Ev.r /\ Done(Ev.r, Ev.c, Ev.k)
TStop   == Is("stop") /\ Stop
\* end of file: nothing more to read on a connection that was told to leave, or
\* that was never served
TEof    == /\ Is("eof")
           /\ \/ up[Ev.c] = "exit"
              \/ up[Ev.c] = "wait" /\ phase = "stop"
              \/ stall[Ev.c] /\ lost[Ev.c]
           /\ up' = [up EXCEPT ![Ev.c] = "gone"]
           /\ UNCHANGED <<last, inited, binit, have, asked, part, k, out, lost, stall, req, owner, by, phase, faults>>
\* the interface was closed: nothing is left behind
TClosed == Is("closed") /\ Ev.sockgone /\ Ev.shmgone /\ UNCHANGED svars
TEnd    == /\ Is("end")
           /\ Traces[tid][1].early \/ \A r \in 1..NReq : req[r] = "done"
           /\ \A c \in Clients : up[c] \in {"off", "gone"}
           /\ UNCHANGED svars

TNext == /\ l < Len(Traces[tid])
         /\ \/ TConn \/ TDie \/ TStatus \/ TRInit \/ TPos \/ TGet \/ TExit \/ TTx \/ TPart \/ TStall
            \/ TForce \/ TSubmit \/ TDone \/ TStop \/ TEof \/ TClosed \/ TEnd \/ Silent
TSpec == TInit /\ [][TNext]_tvars
tview == <<svars, tid, l>>
Track == TrackAt(tid, l)
=============================================================================
