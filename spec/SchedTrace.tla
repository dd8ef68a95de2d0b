------------------------------ MODULE SchedTrace ------------------------------
(* Assignments observed on the wire, poll by poll, against Sched.tla.         *)
EXTENDS Sched, TraceBase
VARIABLES tid, l
Ev == Traces[tid][l + 1]
TRep(r) == Traces[tid][1].rep[r]
TInit == Init /\ tid \in 1..NT /\ l = 1
Step == l' = l + 1 /\ tid' = tid /\ act' = [op |-> Ev.e]
Stay == UNCHANGED <<tid, l>>
Micro(o) == Stay /\ act' = [op |-> o]
EvAsg == {<<Ev.asg[i][1], Ev.asg[i][2]>> : i \in 1..Len(Ev.asg)}
TNext ==
  /\ l < Len(Traces[tid])
  /\ \/ Ev.e = "conn" /\ Connect(Ev.c) /\ Step
     \/ Ev.e = "submit" /\ Submit(Ev.r) /\ Step
     \/ Ev.e = "fin" /\ Finish(TRep, Ev.c) /\ Step
     \/ Ev.e = "die" /\ Die(Ev.c) /\ Step
     \/ Ev.e = "arm" /\ Arm(Ev.c) /\ Step
     \/ Ev.e = "poll" /\ Begin /\ Micro("poll")
     \/ Ev.e = "poll" /\ \E c \in Clients : Accept(c) /\ Micro("accept")
                           /\ Len(fresh) < Len(Ev.acc) /\ c = Ev.acc[Len(fresh) + 1]
     \/ Ev.e = "poll" /\ \E c \in Clients : Prune(c) /\ Micro("prune")
     \/ Ev.e = "poll" /\ fresh = Ev.acc /\ \E P \in Pools : HandOut(TRep, P) /\ asg' \subseteq EvAsg /\ Micro("hand")
     \/ Ev.e = "poll" /\ Snap /\ Micro("snap")
     \/ Ev.e = "poll" /\ \E c \in Clients : Reap(c) /\ Micro("reap")
     \/ Ev.e = "poll" /\ fresh = Ev.acc /\ Collect(TRep) /\ Micro("collect")
     \/ Ev.e = "poll" /\ fresh = Ev.acc /\ asg = EvAsg /\ End(TRep) /\ Step
TSpec == TInit /\ [][TNext]_<<vars, tid, l>>
tview == <<svars, tid, l>>
Track == TrackAt(tid, l)
==============================================================================
