---------------------------- MODULE CompositeTrace ----------------------------
(* Recorded evaluations of real composite force fields against Composite.tla. *)
(* The poll event gives what the requests look like afterwards; components    *)
(* whose completion cannot be seen (they run in their own threads) are        *)
(* declared hidden in the setup and finish silently.                          *)
EXTENDS Integers, FiniteSets, TraceBase
VARIABLES tid, l, setup, mst, pst, res, act
C == INSTANCE Composite
Ev == Traces[tid][l + 1]
all == <<tid, l, setup, mst, pst, res, act>>
Hidden == setup.hidden

TInit == tid \in 1..NT /\ l = 1 /\ setup = Traces[tid][1] /\ C!Init

\* energy: norm * (pot + offset) as an integer; ok: forces, virial, extras
Abs(x) == IF x < 0 THEN -x ELSE x
Good(p) == Ev.ok /\ Abs(Ev.num - C!SumTo(p, setup.nm)) <= setup.tol
Done == LET p == Ev.p IN
  /\ Good(p)
  /\ IF Hidden
     THEN /\ pst[p] = "queued"
          /\ pst' = [pst EXCEPT ![p] = "done"]
          /\ res' = [res EXCEPT ![p] = C!SumTo(p, setup.nm)]
          /\ mst' = [mst EXCEPT ![p] = [m \in C!Ms |-> "released"]]
          /\ act' = act
     ELSE C!Gather(p)

\* what an observer sees while nothing changes: components still held by their
\* force fields, requests still pending
Look == LET p == Ev.p IN
  /\ IF Ev.st = "Done" THEN pst[p] = "done" ELSE pst[p] = "queued"
  /\ ((pst[p] = "done" /\ ~Hidden) => Ev.held = 0) = TRUE
  /\ UNCHANGED <<mst, pst, res, act>>
\* a poll after which something that was ready is still not done is tolerated,
\* a request ready for several polls and not done is not
\* (compared with TRUE so that TLC evaluates it as one predicate)
Finished == /\ \A p \in C!Ps : pst[p] \in {"new", "done"} \/ ~(\A m \in C!Ms : mst[p][m] = "done")
            /\ (Hidden => \A p \in C!Ps : pst[p] \in {"new", "done"})
End == /\ Finished = TRUE
       /\ UNCHANGED <<mst, pst, res, act>>

Step == CASE Ev.e = "submit" -> C!Submit(Ev.p)
          [] Ev.e = "fin" -> C!Finish(Ev.p, Ev.m)
          [] Ev.e = "done" -> Done
          [] Ev.e = "look" -> Look
          [] Ev.e = "end" -> End
          [] OTHER -> FALSE
TNext == l < Len(Traces[tid]) /\ Step /\ l' = l + 1 /\ tid' = tid /\ setup' = setup
Spec == TInit /\ [][TNext]_all
Track == TrackAt(tid, l)
=============================================================================
