---------------------------- MODULE InputTreeTrace ----------------------------
(* Documents read by the real input classes: the verdict, the tree they held *)
(* afterwards, and the tree held after writing it out and reading that back. *)
EXTENDS Integers, FiniteSets, TraceBase
VARIABLES tid, l, setup, stack, bad, given, dyn, opened, phase, held
T == INSTANCE InputTree
Ev == Traces[tid][l + 1]
all == <<tid, l, setup, stack, bad, given, dyn, opened, phase, held>>
TInit == /\ tid \in 1..NT /\ l = 1
         /\ setup = Traces[tid][1] /\ T!Start /\ held = <<>>
\* what was given is what is held, and the dynamic nodes are all there, in order
Holds == /\ phase = "accepted"
         /\ (\A g \in given : \E i \in 1..Len(Ev.tree) : Ev.tree[i].p = g.p /\ Ev.tree[i].v = g.v) = TRUE
         /\ LET d == {Ev.dyn[i] : i \in 1..Len(Ev.dyn)} IN
            \* (a node left out altogether may have dynamic nodes by default)
            (dyn \subseteq d /\ \A x \in d \ dyn : SubSeq(x, 1, Len(x) - 1) \notin opened) = TRUE
Step == CASE Ev.e = "open" -> T!Open(Ev.tag) /\ held' = held
          [] Ev.e = "attr" -> T!Attr(Ev.a, Ev.c, Ev.v) /\ held' = held
          [] Ev.e = "text" -> T!Text(Ev.c, Ev.v) /\ held' = held
          [] Ev.e = "close" -> T!Close /\ held' = held
          [] Ev.e = "verdict" -> T!Verdict(Ev.ok) /\ held' = held
          [] Ev.e = "held" -> Holds /\ held' = Ev.tree /\ UNCHANGED <<setup, stack, bad, given, dyn, opened, phase>>
          \* held by an object rebuilt from what was written
          [] Ev.e = "again" -> phase = "accepted" /\ Ev.tree = held /\ held' = held /\ UNCHANGED <<setup, stack, bad, given, dyn, opened, phase>>
          \* first of two checkpoints written by simulations built one from the other
          [] Ev.e = "written" -> phase = "accepted" /\ held' = Ev.tree /\ UNCHANGED <<setup, stack, bad, given, dyn, opened, phase>>
          [] OTHER -> FALSE
TNext == l < Len(Traces[tid]) /\ Step /\ l' = l + 1 /\ tid' = tid
Spec == TInit /\ [][TNext]_all
Track == TrackAt(tid, l)
=============================================================================
