------------------------------ MODULE BatchTrace ------------------------------
(* Recorded polls of FFDirect: every call of the model is a batch of queued   *)
(* requests, complete or after enough quiet polls, and answers exactly them.  *)
EXTENDS Integers, FiniteSets, TraceBase
VARIABLES tid, l, setup, st, batch, calm, act
B == INSTANCE Batch
Ev == Traces[tid][l + 1]
all == <<tid, l, setup, st, batch, calm, act>>
TInit == tid \in 1..NT /\ l = 1 /\ setup = Traces[tid][1] /\ B!Init
Queued == {r \in B!Rs : st[r] \in {"queued", "taken"}}
\* a call of the model with the structures of requests Ev.b
Call == /\ \A i \in 1..Len(Ev.b) : Ev.b[i] \in Queued
        /\ \A i, j \in 1..Len(Ev.b) : i # j => Ev.b[i] # Ev.b[j]
        /\ Len(Ev.b) <= setup.size
        /\ st' = [r \in B!Rs |-> IF r \in B!Range(Ev.b) THEN "done" ELSE st[r]]
        /\ UNCHANGED <<batch, calm, act>>
Done == /\ st[Ev.r] = "done" /\ Ev.ok /\ UNCHANGED <<st, batch, calm, act>>
\* after enough polls only the requests of an incomplete batch may be pending,
\* and those only if nobody keeps polling (not threaded)
End == /\ (setup.threaded => Queued = {}) = TRUE
       /\ Cardinality(Queued) < setup.size
       /\ UNCHANGED <<st, batch, calm, act>>
Step == CASE Ev.e = "submit" -> B!Submit(Ev.r)
          [] Ev.e = "call" -> Call
          [] Ev.e = "done" -> Done
          [] Ev.e = "end" -> End
          [] OTHER -> FALSE
TNext == l < Len(Traces[tid]) /\ Step /\ l' = l + 1 /\ tid' = tid /\ setup' = setup
Spec == TInit /\ [][TNext]_all
Track == TrackAt(tid, l)
=============================================================================
