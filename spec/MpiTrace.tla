------------------------------- MODULE MpiTrace -------------------------------
(* Recorded conversations of the real MPI interface (through an instrumented  *)
(* communicator) validated against Mpi.tla.  First event: the world.          *)
EXTENDS Integers, FiniteSets, TraceBase
VARIABLES tid, l, world, open, pool, inited, st, by, out, ans, exited, stopped, act

M == INSTANCE Mpi
Ev == Traces[tid][l + 1]
all == <<tid, l, world, open, pool, inited, st, by, out, ans, exited, stopped, act>>

TInit == /\ tid \in 1..NT /\ l = 1 /\ world = Traces[tid][1] /\ M!Init

\* the done event carries the worker whose numbers the request was given and
\* whether they are those of exactly that request
Done(r) == /\ st[r] = "done" /\ Ev.ok /\ Ev.w = by[r]
           /\ UNCHANGED <<open, pool, inited, st, by, out, ans, exited, stopped, act>>
\* an inconsistent launch is refused
Refuse == /\ ~M!WorldOK
          /\ UNCHANGED <<open, pool, inited, st, by, out, ans, exited, stopped, act>>
\* the end of a run: nothing may be left behind
Quiet == /\ \A r \in M!Reqs : st[r] \in {"new", "done", "exit"}
         /\ \A w \in M!Workers : pool[w] \in stopped => w \in exited
         /\ UNCHANGED <<open, pool, inited, st, by, out, ans, exited, stopped, act>>

Step ==
  CASE Ev.e = "open" -> M!Open(Ev.f)
    [] Ev.e = "refuse" -> Refuse
    [] Ev.e = "submit" -> M!Submit(Ev.r)
    [] Ev.e = "INIT" -> Ev.ok /\ M!SendInit(Ev.w)
    [] Ev.e = "WORK" -> Ev.ok /\ M!SendWork(Ev.w, Ev.b)
    [] Ev.e = "ANS" -> M!Answer(Ev.w)
    [] Ev.e = "COLLECT" -> M!Collect(Ev.w)
    [] Ev.e = "done" -> Done(Ev.r)
    [] Ev.e = "stop" -> M!Stop(Ev.f)
    [] Ev.e = "EXIT" -> M!SendExit(Ev.w)
    [] Ev.e = "left" -> /\ st[Ev.r] = "exit" /\ Ev.s = "Exit"
                        /\ UNCHANGED <<open, pool, inited, st, by, out, ans, exited, stopped, act>>
    [] Ev.e = "quiet" -> Quiet
    [] OTHER -> FALSE

TNext == l < Len(Traces[tid]) /\ Step /\ l' = l + 1 /\ tid' = tid /\ world' = world
Spec == TInit /\ [][TNext]_all
Track == TrackAt(tid, l)
=============================================================================
