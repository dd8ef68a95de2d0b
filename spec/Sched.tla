-------------------------------- MODULE Sched --------------------------------
(* How the socket server hands pending evaluations to free clients: the       *)
(* matching policies of ipi/interfaces/sockets.py.  One poll accepts clients, *)
(* prunes dead ones, hands out work (once, or again whenever clients become   *)
(* free) and, with consolidated messages, collects all answers before it ends.*)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Emit

CONSTANTS NC, NR, Match, Piped, Batch, MaxFaults
Clients == 1..NC
Requests == 1..NR

VARIABLES order,  \* accepted clients, in order of connection
          cst,    \* out, conn, idle, busy, ready (answer collected), dead, gone
          armed,  \* will die at its next evaluation
          last,   \* replica a client has served last + 1, 0 if none
          locked, \* it was given the replica it had served before
          served, \* replicas served
          job,    \* requests a client works on
          req,    \* new, queued, running, done
          known,  \* the snapshot of pending requests the server goes through
          pc,     \* idle, poll, collect
          fresh,  \* accepted during this poll
          asg,    \* handed out during this poll
          faults, act

svars == <<order, cst, armed, last, locked, served, job, req, known, pc, fresh, asg, faults>>
vars == <<svars, act>>

\* the replica of each request
Reps == [r \in Requests |-> IF r <= 2 THEN r - 1 ELSE r % 2]
Rep(r) == Reps[r]

Init ==
  /\ order = <<>> /\ cst = [c \in Clients |-> "out"] /\ armed = [c \in Clients |-> FALSE]
  /\ last = [c \in Clients |-> 0] /\ locked = [c \in Clients |-> FALSE]
  /\ served = [c \in Clients |-> {}] /\ job = [c \in Clients |-> <<>>]
  /\ req = [r \in Requests |-> "new"] /\ known = {} /\ pc = "idle"
  /\ fresh = <<>> /\ asg = {} /\ faults = 0 /\ act = [op |-> "init"]

Queued == {r \in Requests : req[r] = "queued"}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE FirstN(_, _)
FirstN(S, n) == IF n = 0 \/ S = {} THEN <<>> ELSE <<Min(S)>> \o FirstN(S \ {Min(S)}, n - 1)
ToSet(s) == {s[i] : i \in 1..Len(s)}
Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* clients that could be given something: accepted and not known to be busy
FreeSeq == SelectSeq(order, LAMBDA c : cst[c] = "idle")

Kinds == CASE Match = "auto" -> <<"match", "none", "free", "any">>
           [] Match = "any" -> <<"any">>
           [] Match = "lock" -> <<"match", "none">>
Fits(rep(_), kind, c, r) ==
  CASE kind = "match" -> last[c] = rep(r) + 1
    [] kind = "none" -> last[c] = 0 /\ (Match = "lock" => \A i \in 1..Len(order) : last[order[i]] # rep(r) + 1)
    [] kind = "free" -> ~locked[c]
    [] kind = "any" -> TRUE

\* goes through the kinds of match, and for each through the free clients, and
\* gives each the first request that fits; result: set of <<client, requests>>
RECURSIVE Go(_, _, _, _, _)
Go(rep(_), ki, i, F, P) ==
  IF ki > Len(Kinds) \/ P = {} \/ F = <<>> THEN {}
  ELSE IF i > Len(F) THEN Go(rep, ki + 1, 1, F, P)
  ELSE LET c == F[i]
           cand == IF Batch > 1 THEN P ELSE {r \in P : Fits(rep, Kinds[ki], c, r)}
       IN IF cand = {} THEN Go(rep, ki, i + 1, F, P)
          ELSE LET b == IF Batch > 1 THEN FirstN(P, Batch) ELSE <<Min(cand)>>
               IN {<<c, b>>} \cup Go(rep, ki, i, Remove(F, i), P \ ToSet(b))

Handing(rep(_), P) == Go(rep, 1, 1, FreeSeq, P)

\* ------------------------------------------------------------ environment
Connect(c) ==
  /\ pc = "idle" /\ cst[c] = "out"
  /\ cst' = [cst EXCEPT ![c] = "conn"]
  /\ UNCHANGED <<order, armed, last, locked, served, job, req, known, pc, fresh, asg, faults>>
Submit(r) ==
  /\ pc = "idle" /\ req[r] = "new" /\ (r > 1 => req[r - 1] # "new")
  /\ req' = [req EXCEPT ![r] = "queued"]
  /\ UNCHANGED <<order, cst, armed, last, locked, served, job, known, pc, fresh, asg, faults>>
\* a client answers (one message at a time): seen by the server at its next poll
Finish(rep(_), c) ==
  /\ pc = "idle" /\ ~Piped /\ cst[c] = "busy"
  /\ cst' = [cst EXCEPT ![c] = "ready"]
  /\ req' = [r \in Requests |-> IF r \in ToSet(job[c]) THEN "done" ELSE req[r]]
  /\ last' = [last EXCEPT ![c] = rep(job[c][Len(job[c])]) + 1]
  /\ served' = [served EXCEPT ![c] = @ \cup {rep(r) : r \in ToSet(job[c])}]
  /\ UNCHANGED <<order, armed, locked, job, known, pc, fresh, asg, faults>>
Die(c) ==
  /\ pc = "idle" /\ ~Piped /\ cst[c] = "busy"
  /\ cst' = [cst EXCEPT ![c] = "dead"]
  /\ faults' = faults + 1
  /\ UNCHANGED <<order, armed, last, locked, served, job, req, known, pc, fresh, asg>>
Arm(c) ==
  /\ pc = "idle" /\ Piped /\ cst[c] \in {"conn", "idle"} /\ ~armed[c]
  /\ armed' = [armed EXCEPT ![c] = TRUE]
  /\ faults' = faults + 1
  /\ UNCHANGED <<order, cst, last, locked, served, job, req, known, pc, fresh, asg>>

\* ------------------------------------------------------------ the poll
Begin ==
  /\ pc = "idle" /\ pc' = "poll"
  /\ fresh' = <<>> /\ asg' = {}
  /\ UNCHANGED <<order, cst, armed, last, locked, served, job, req, known, faults>>
Accept(c) ==
  /\ pc = "poll" /\ asg = {} /\ cst[c] = "conn"
  /\ cst' = [cst EXCEPT ![c] = "idle"]
  /\ order' = Append(order, c) /\ fresh' = Append(fresh, c)
  /\ UNCHANGED <<armed, last, locked, served, job, req, known, pc, asg, faults>>
Prune(c) ==
  /\ pc = "poll" /\ asg = {} /\ fresh = <<>> /\ cst[c] = "dead"
  /\ cst' = [cst EXCEPT ![c] = "gone"]
  /\ order' = SelectSeq(order, LAMBDA d : d # c)
  /\ req' = [r \in Requests |-> IF r \in ToSet(job[c]) /\ req[r] = "running" THEN "queued" ELSE req[r]]
  /\ job' = [job EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<armed, last, locked, served, known, pc, fresh, asg, faults>>
HandOut(rep(_), P) ==
  /\ pc = "poll" /\ P # {}
  /\ LET A == Handing(rep, P)
         got == {a[1] : a \in A}
         of(c) == (CHOOSE a \in A : a[1] = c)[2]
     IN /\ A # {}
        /\ cst' = [c \in Clients |-> IF c \in got THEN "busy" ELSE cst[c]]
        /\ job' = [c \in Clients |-> IF c \in got THEN of(c) ELSE job[c]]
        /\ locked' = [c \in Clients |-> IF c \in got
                        THEN (Batch = 1 /\ last[c] = rep(of(c)[1]) + 1) ELSE locked[c]]
        /\ req' = [r \in Requests |-> IF \E a \in A : r \in ToSet(a[2]) THEN "running" ELSE req[r]]
        /\ known' = {r \in P : \A a \in A : r \notin ToSet(a[2])}
        /\ asg' = asg \cup A
  /\ UNCHANGED <<order, armed, last, served, pc, fresh, faults>>
\* the server looks at the queue, though there may be nobody to be served
Snap ==
  /\ pc = "poll" /\ known # Queued
  /\ known' = Queued
  /\ UNCHANGED <<order, cst, armed, last, locked, served, job, req, pc, fresh, asg, faults>>
\* answered clients become free
Reap(c) ==
  /\ pc = "poll" /\ cst[c] = "ready"
  /\ cst' = [cst EXCEPT ![c] = "idle"] /\ job' = [job EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<order, armed, last, locked, served, req, known, pc, fresh, asg, faults>>
\* nobody who could be given something is left without
Exhausted(rep(_)) ==
  /\ \A c \in Clients : cst[c] # "ready"
  /\ Handing(rep, IF Match = "lock" THEN known ELSE Queued) = {}
\* consolidated messages: all clients answer (or die) before the poll ends
Collect(rep(_)) ==
  /\ pc = "poll" /\ Piped /\ Exhausted(rep)
  /\ LET ok(c) == cst[c] = "busy" /\ ~armed[c]
         bad(c) == cst[c] = "busy" /\ armed[c]
     IN /\ cst' = [c \in Clients |-> IF ok(c) THEN "idle" ELSE IF bad(c) THEN "dead" ELSE cst[c]]
        /\ req' = [r \in Requests |->
             IF \E c \in Clients : ok(c) /\ r \in ToSet(job[c]) THEN "done"
             ELSE IF \E c \in Clients : bad(c) /\ r \in ToSet(job[c]) THEN "queued" ELSE req[r]]
        /\ last' = [c \in Clients |-> IF ok(c) THEN rep(job[c][Len(job[c])]) + 1 ELSE last[c]]
        /\ served' = [c \in Clients |-> IF ok(c) THEN served[c] \cup {rep(r) : r \in ToSet(job[c])} ELSE served[c]]
        /\ job' = [c \in Clients |-> <<>>]
  /\ pc' = "end"
  /\ UNCHANGED <<order, armed, locked, known, fresh, asg, faults>>
End(rep(_)) ==
  /\ IF Piped THEN pc = "end" ELSE pc = "poll" /\ Exhausted(rep)
  /\ pc' = "idle"
  /\ UNCHANGED <<order, cst, armed, last, locked, served, job, req, known, fresh, asg, faults>>

\* ------------------------------------------------------------ behaviours
A(o, c, r) == act' = [op |-> o, c |-> c, r |-> r]
\* the snapshot is renewed when it is used up or clients are abundant; which of
\* the two is looked at is left open
Pools == {known \cap Queued, Queued}
Next ==
  \/ \E c \in Clients : Connect(c) /\ A("conn", c, 0)
  \/ \E r \in Requests : Submit(r) /\ A("submit", 0, r)
  \/ \E c \in Clients : Finish(Rep, c) /\ A("fin", c, 0)
  \/ \E c \in Clients : faults < MaxFaults /\ Die(c) /\ A("die", c, 0)
  \/ \E c \in Clients : faults < MaxFaults /\ Arm(c) /\ A("arm", c, 0)
  \/ Begin /\ A("poll", 0, 0)
  \/ \E c \in Clients : Accept(c) /\ A("accept", c, 0)
  \/ \E c \in Clients : Prune(c) /\ A("prune", c, 0)
  \/ \E P \in Pools : HandOut(Rep, P) /\ A("hand", 0, 0)
  \/ Snap /\ A("snap", 0, 0)
  \/ \E c \in Clients : Reap(c) /\ A("reap", c, 0)
  \/ Collect(Rep) /\ A("collect", 0, 0)
  \/ End(Rep) /\ A("end", 0, 0)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------ properties
OneHolder == \A c, d \in Clients : c # d /\ cst[c] \in {"busy", "dead"} /\ cst[d] \in {"busy", "dead"}
               => ToSet(job[c]) \cap ToSet(job[d]) \cap {r \in Requests : req[r] = "running"} = {}
RunningHeld == \A r \in Requests : req[r] = "running" => \E c \in Clients : r \in ToSet(job[c])
LockOne == (Match = "lock" /\ Batch = 1) => \A c \in Clients : Cardinality(served[c]) <= 1
\* statement-level form of the policies, independent of the procedure above
New == asg' \ asg
PrefersOwn == [][(act'.op = "hand" /\ Match = "auto" /\ Batch = 1) =>
   \A a \in New : (last[a[1]] # 0 /\ last[a[1]] # Rep(a[2][1]) + 1) =>
      \* no evaluation of the replica it served last was to be had
      \A r \in (known' \cup {b[2][1] : b \in New}) : (Rep(r) + 1 = last[a[1]]) =>
          \E b \in New : b[2][1] = r /\ last[b[1]] = Rep(r) + 1]_vars
\* a newcomer goes before a client that would have to change replica
NewFirst == [][(act'.op = "hand" /\ Match = "auto" /\ Batch = 1) =>
   ((\E a \in New : last[a[1]] # 0 /\ last[a[1]] # Rep(a[2][1]) + 1) =>
      ~\E i \in 1..Len(FreeSeq) : last[FreeSeq[i]] = 0 /\ FreeSeq[i] \notin {a[1] : a \in New})]_vars
Oldest == [][(act'.op = "hand" /\ (Match = "any" \/ Batch > 1)) =>
   \A a \in New : \A r \in known' : \A x \in ToSet(a[2]) : x < r]_vars

st == [cst |-> cst, req |-> req, pc |-> pc, faults |-> faults]
EmitInit == (act.op = "init") => EmitLine([i |-> st])
EmitTr == EmitLine([f |-> st, a |-> act', t |-> st'])
=============================================================================
