------------------------------- MODULE Socket -------------------------------
(* The socket server of i-PI (ipi/interfaces/sockets.py) and its clients, at  *)
(* the level of the messages on the wire and of the requests' life cycle.     *)
(*                                                                            *)
(* One action per message received by a client (the server's sends), per      *)
(* message sent by a client, per life-cycle event of a client (connect, die,  *)
(* being dropped by the server) and per request event (submit, done).  Client *)
(* faults may happen between any two steps.  The server's choices (which      *)
(* client, which request) are left open here; Sched.tla fixes them.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit

CONSTANTS NC,        \* clients (connections) are 1..NC
          NR,        \* requests are 1..NR
          Batch,     \* structures per message
          Piped,     \* TRUE: POSDATA and GETFORCE are sent together
          Timeouts,  \* TRUE: the server drops clients that compute for too long
          MaxFaults, \* bound for model checking
          Always     \* TRUE: clients ask for initialisation before every structure

Clients == 1..NC
Requests == 1..NR

VARIABLES up,     \* off, wait (not greeted yet), on, exit (told to leave), gone
          last,   \* what the client last reported; "owed": STATUS unanswered; "none"
          inited, \* the client was initialised
          binit,  \* request named by an INIT whose structure has not been sent yet
          have,   \* requests whose structures the client holds
          asked,  \* GETFORCE received and not fully answered
          part,   \* an answer was sent only in part
          k,      \* number of complete answers sent on this connection
          out,    \* requests of the last complete answer
          lost,   \* the server has given up this client
          stall,  \* the client stopped reading in the middle of a message
          req,    \* new, queued, answered, done
          owner,  \* client working for the request, 0 if none
          by,     \* <<client, answer>> that completed the request
          phase,  \* run, stop
          faults, \* number of faults so far
          act

svars == <<up, last, inited, binit, have, asked, part, k, out, lost, stall, req, owner, by, phase, faults>>
vars == <<up, last, inited, binit, have, asked, part, k, out, lost, stall, req, owner, by, phase, faults, act>>

Init ==
  /\ up = [c \in Clients |-> "off"] /\ last = [c \in Clients |-> "none"]
  /\ inited = [c \in Clients |-> FALSE] /\ binit = [c \in Clients |-> 0]
  /\ have = [c \in Clients |-> <<>>] /\ asked = [c \in Clients |-> FALSE]
  /\ part = [c \in Clients |-> FALSE] /\ k = [c \in Clients |-> 0]
  /\ out = [c \in Clients |-> <<>>] /\ lost = [c \in Clients |-> FALSE] /\ stall = [c \in Clients |-> FALSE]
  /\ req = [r \in Requests |-> "new"] /\ owner = [r \in Requests |-> 0]
  /\ by = [r \in Requests |-> <<0, 0>>]
  /\ phase = "run" /\ faults = 0
  /\ act = [op |-> "init"]

Range(s) == {s[i] : i \in 1..Len(s)}
\* distinct requests of a padded batch, in order
Real(b) == SelectSeq([i \in 1..Len(b) |-> IF i > 1 /\ b[i] = b[i-1] THEN 0 ELSE b[i]],
                     LAMBDA r : r # 0)
Reachable(c) == up[c] = "on" /\ ~lost[c]
\* somebody is working for r, as far as the server knows
Held(r) == owner[r] # 0 /\ ~lost[owner[r]]
\* a client was initialised for r and will get its structure next
Reserved(r, c) == \E d \in Clients \ {c} : binit[d] = r /\ ~lost[d]

\* ------------------------------------------------------------- requests
Submit(r) ==
  /\ phase = "run" /\ req[r] = "new"
  /\ req' = [req EXCEPT ![r] = "queued"]
  /\ UNCHANGED <<up, last, inited, binit, have, asked, part, k, out, lost, owner, by, phase, faults, stall>>

\* the server has read the complete answer of a client to the work it was given
Accept(c) ==
  /\ out[c] # <<>> /\ ~lost[c]
  /\ \A r \in Range(out[c]) : owner[r] = c /\ req[r] = "queued"
  /\ req' = [r \in Requests |-> IF r \in Range(out[c]) THEN "answered" ELSE req[r]]
  /\ by' = [r \in Requests |-> IF r \in Range(out[c]) THEN <<c, k[c]>> ELSE by[r]]
  /\ owner' = [r \in Requests |-> IF r \in Range(out[c]) THEN 0 ELSE owner[r]]
  /\ out' = [out EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<up, last, inited, binit, have, asked, part, k, lost, phase, faults, stall>>

\* the submitter sees the result: answer n of client c
Done(r, c, n) ==
  /\ req[r] = "answered" /\ by[r] = <<c, n>>
  /\ req' = [req EXCEPT ![r] = "done"]
  /\ UNCHANGED <<up, last, inited, binit, have, asked, part, k, out, lost, owner, by, phase, faults, stall>>

\* ------------------------------------------------------------- client life
Connect(c) ==
  /\ up[c] = "off"
  /\ up' = [up EXCEPT ![c] = "wait"]
  /\ UNCHANGED <<last, inited, binit, have, asked, part, k, out, lost, stall, req, owner, by, phase, faults>>

Die(c) ==
  /\ up[c] \in {"wait", "on"}
  /\ up' = [up EXCEPT ![c] = "gone"]
  /\ faults' = faults + 1
  /\ UNCHANGED <<last, inited, binit, have, asked, part, k, out, lost, req, owner, by, phase, stall>>

\* ------------------------------------------------------------- server sends
RxStatus(c) ==
  /\ up[c] \in {"wait", "on"} /\ ~lost[c]
  /\ last[c] # "owed" /\ ~asked[c]
  /\ up' = [up EXCEPT ![c] = "on"]
  /\ last' = [last EXCEPT ![c] = "owed"]
  /\ UNCHANGED <<inited, binit, have, asked, part, k, out, lost, stall, req, owner, by, phase, faults>>

RxInit(c, r) ==
  /\ Reachable(c) /\ last[c] = "NEEDINIT"
  /\ req[r] = "queued" /\ ~Held(r) /\ ~Reserved(r, c)
  /\ last' = [last EXCEPT ![c] = "none"]
  /\ inited' = [inited EXCEPT ![c] = TRUE]
  /\ binit' = [binit EXCEPT ![c] = r]
  /\ UNCHANGED <<up, have, asked, part, k, out, lost, stall, req, owner, by, phase, faults>>

\* b: the structures sent, padded to a full batch with copies of the last one
RxPos(c, b) ==
  /\ Reachable(c) /\ last[c] = "READY" /\ have[c] = <<>> /\ out[c] = <<>>
  /\ Len(b) = Batch
  /\ LET re == Real(b)
     IN /\ Len(re) = Cardinality(Range(b))
        /\ \A i \in 1..Len(re) : b[i] = re[i]
        /\ \A r \in Range(b) : req[r] = "queued" /\ ~Held(r) /\ ~Reserved(r, c)
        /\ binit[c] # 0 => b[1] = binit[c]
        /\ have' = [have EXCEPT ![c] = re]
        /\ owner' = [r \in Requests |-> IF r \in Range(b) THEN c ELSE owner[r]]
  /\ last' = [last EXCEPT ![c] = "none"]
  /\ binit' = [binit EXCEPT ![c] = 0]
  /\ UNCHANGED <<up, inited, asked, part, k, out, lost, req, by, phase, faults, stall>>

RxGet(c) ==
  /\ Reachable(c) /\ have[c] # <<>> /\ ~asked[c]
  /\ last[c] = "HAVEDATA" \/ (Piped /\ last[c] = "none")
  /\ asked' = [asked EXCEPT ![c] = TRUE]
  /\ last' = [last EXCEPT ![c] = "none"]
  /\ UNCHANGED <<up, inited, binit, have, part, k, out, lost, stall, req, owner, by, phase, faults>>

\* the server gives up a client: it noticed that the client has gone, or the
\* client computed for too long or went silent in the middle of an answer
Lose(c) ==
  /\ ~lost[c]
  /\ \/ up[c] = "gone"
     \/ up[c] = "on" /\ (part[c] \/ stall[c])
     \/ up[c] = "on" /\ Timeouts /\ (have[c] # <<>> \/ out[c] # <<>> \/ binit[c] # 0)
  /\ lost' = [lost EXCEPT ![c] = TRUE]
  /\ out' = [out EXCEPT ![c] = <<>>]
  /\ owner' = [r \in Requests |-> IF owner[r] = c THEN 0 ELSE owner[r]]
  /\ UNCHANGED <<up, last, inited, binit, have, asked, part, k, req, by, phase, faults, stall>>

Stop ==
  /\ phase = "run"
  /\ phase' = "stop"
  /\ UNCHANGED <<up, last, inited, binit, have, asked, part, k, out, lost, req, owner, by, faults, stall>>

RxExit(c) ==
  /\ up[c] = "on"
  /\ phase = "stop" \/ lost[c]
  /\ up' = [up EXCEPT ![c] = "exit"]
  /\ UNCHANGED <<last, inited, binit, have, asked, part, k, out, lost, stall, req, owner, by, phase, faults>>

\* ------------------------------------------------------------- client sends
TxStatus(c, s) ==
  /\ up[c] = "on" /\ last[c] = "owed"
  /\ CASE s = "NEEDINIT" -> have[c] = <<>> /\ ~inited[c]
       [] s = "READY" -> have[c] = <<>>
       [] s = "HAVEDATA" -> have[c] # <<>> /\ ~asked[c]
       [] OTHER -> FALSE
  /\ last' = [last EXCEPT ![c] = s]
  /\ UNCHANGED <<up, inited, binit, have, asked, part, k, out, lost, stall, req, owner, by, phase, faults>>

TxPart(c) ==
  /\ up[c] = "on" /\ asked[c] /\ ~part[c]
  /\ part' = [part EXCEPT ![c] = TRUE]
  /\ UNCHANGED <<up, last, inited, binit, have, asked, k, out, lost, stall, req, owner, by, phase, faults>>

\* the client stops reading for a while, in the middle of what it is sent
Stall(c) ==
  /\ up[c] = "on" /\ last[c] = "READY"
  /\ stall' = [stall EXCEPT ![c] = TRUE]
  /\ faults' = faults + 1
  /\ UNCHANGED <<up, last, inited, binit, have, asked, part, k, out, lost, req, owner, by, phase>>

TxForce(c) ==
  /\ up[c] = "on" /\ asked[c] /\ ~part[c]
  /\ asked' = [asked EXCEPT ![c] = FALSE]
  /\ out' = [out EXCEPT ![c] = have[c]]
  /\ have' = [have EXCEPT ![c] = <<>>]
  /\ inited' = [inited EXCEPT ![c] = inited[c] /\ ~Always]
  /\ k' = [k EXCEPT ![c] = @ + 1]
  /\ UNCHANGED <<up, last, binit, part, lost, req, owner, by, phase, faults, stall>>

\* ------------------------------------------------------------- behaviours
A(o, c, r) == act' = [op |-> o, c |-> c, r |-> r]
Batches == IF Batch = 1 THEN {<<r>> : r \in Requests}
           ELSE {<<r, s>> : r, s \in Requests}

ServerStep ==
  \/ \E c \in Clients : RxStatus(c) /\ A("status", c, 0)
  \/ \E c \in Clients, r \in Requests : RxInit(c, r) /\ A("init", c, r)
  \/ \E c \in Clients, b \in Batches : RxPos(c, b) /\ A("posdata", c, b[1])
  \/ \E c \in Clients : RxGet(c) /\ A("getforce", c, 0)
  \/ \E c \in Clients : Lose(c) /\ A("lose", c, 0)
  \/ \E c \in Clients : RxExit(c) /\ A("exit", c, 0)
  \/ \E c \in Clients : Accept(c) /\ A("accept", c, 0)
ClientStep ==
  \/ \E c \in Clients : Connect(c) /\ A("connect", c, 0)
  \/ \E c \in Clients, s \in {"NEEDINIT", "READY", "HAVEDATA"} : TxStatus(c, s) /\ A("tx" \o s, c, 0)
  \/ \E c \in Clients : TxForce(c) /\ A("force", c, 0)
  \/ \E c \in Clients : faults < MaxFaults /\ TxPart(c) /\ A("part", c, 0)
  \/ \E c \in Clients : faults < MaxFaults /\ Die(c) /\ A("die", c, 0)
  \/ \E c \in Clients : faults < MaxFaults /\ Stall(c) /\ A("stall", c, 0)
UserStep ==
  \/ \E r \in Requests : Submit(r) /\ A("submit", 0, r)
  \/ \E r \in Requests : Done(r, by[r][1], by[r][2]) /\ A("done", 0, r)
  \/ (\A r \in Requests : req[r] \in {"new", "done"}) /\ Stop /\ A("stop", 0, 0)

Next == ServerStep \/ ClientStep \/ UserStep
Spec == Init /\ [][Next]_vars

\* Liveness model: the server asks for the status only when it knows nothing
\* newer, client 1 never fails and does everything it is asked to, the others
\* may fail but are then given up.
Reliable == 1
LNext == Next /\ (act'.op = "status" => last[act'.c] = "none")
              /\ (act'.op = "stop" => \A r \in Requests : req[r] = "done")
LDo(c, o) == LNext /\ act'.c = c /\ act'.op = o
FairSpec ==
  /\ Init /\ [][LNext]_vars
  /\ WF_vars(LDo(0, "submit"))
  /\ \A o \in {"connect", "status", "init", "txREADY", "txHAVEDATA", "getforce", "force"} :
        WF_vars(LDo(Reliable, o))
  /\ \A o \in {"posdata", "init"} : SF_vars(LDo(Reliable, o))
  /\ \A c \in Clients : WF_vars(LDo(c, "accept"))
  /\ WF_vars(LDo(0, "done"))
  /\ \A c \in Clients \ {Reliable} : SF_vars(LDo(c, "lose"))
\* the reliable client neither dies nor is dropped
ReliableOK == up[Reliable] # "gone" /\ ~lost[Reliable] /\ ~part[Reliable] /\ ~stall[Reliable]

\* ------------------------------------------------------------- properties
TypeOK ==
  /\ \A c \in Clients : up[c] \in {"off", "wait", "on", "exit", "gone"}
  /\ \A r \in Requests : req[r] \in {"new", "queued", "answered", "done"}
\* C01: a completed request carries an answer to itself
OwnResult == [][\A r \in Requests : (req[r] = "queued" /\ req'[r] # "queued") =>
                   /\ req'[r] = "answered"
                   /\ LET c == by'[r][1] IN /\ r \in Range(out[c])
                                           /\ by'[r][2] = k[c]
                                           /\ ~lost[c]]_vars
Final == [][\A r \in Requests : /\ req[r] = "answered" => req'[r] \in {"answered", "done"} /\ by'[r] = by[r]
                                /\ req[r] = "done" => req'[r] = "done" /\ by'[r] = by[r]]_vars
\* C01/C04: at most one working client per request
OneHolder == \A c, d \in Clients : c # d /\ Reachable(c) /\ Reachable(d)
                => (Range(have[c]) \cap Range(have[d]) \cap {r \in Requests : req[r] = "queued"}) = {}
\* C02: nothing is asked of a client that is not in a state to answer
AskOnlyHolders == \A c \in Clients : asked[c] => have[c] # <<>>
QuietAfterExit == [][\A c \in Clients : up[c] \in {"exit", "gone"} =>
                      UNCHANGED <<last[c], have[c], asked[c], k[c]>>]_vars
\* C01: liveness
Answered == \A r \in Requests : (req[r] = "queued") ~> (req[r] = "done")

st == [up |-> up, last |-> last, inited |-> inited, binit |-> binit, have |-> have, asked |-> asked,
       part |-> part, k |-> k, out |-> out, lost |-> lost, stall |-> stall, req |-> req, owner |-> owner, by |-> by,
       phase |-> phase, faults |-> faults]
view == <<up, last, inited, binit, have, asked, part, out, lost, stall, req, owner, phase, faults>>
EmitInit == (act.op = "init") => EmitLine([i |-> st])
EmitTr == EmitLine([f |-> st, a |-> act', t |-> st'])
=============================================================================
