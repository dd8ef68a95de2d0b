------------------------------ MODULE RunTrace ------------------------------
(* Lives of real simulations in one directory.                                *)
EXTENDS Integers, FiniteSets, TraceBase
VARIABLES tid, l, w, step, st, pc, pos, left, file, saved, trig, aborted, finished, restart, bounds, skipped, torn
R == INSTANCE Run
all == <<tid, l, w, step, st, pc, pos, left, file, saved, trig, aborted, finished, restart, bounds, skipped, torn>>
rv == <<w, step, st, pc, pos, left, file, saved, trig, aborted, finished, restart, bounds, skipped, torn>>
Ev == Traces[tid][l + 1]
Range(s) == {s[i] : i \in 1..Len(s)}
TInit == /\ tid \in 1..NT /\ l = 1
         /\ w = [Traces[tid][1] EXCEPT !.fin = Range(@)]
         /\ R!Start
Same == UNCHANGED rv
Labels(f) == [i \in 1..Len(f) |-> f[i].l]
Event == CASE Ev.e = "move" /\ aborted /\ w.threads -> Same   \* threads of an abandoned step may still be at work
           [] Ev.e = "move" -> (w.dts # <<>> => Ev.dt = w.dts[Ev.s][Ev.m]) = TRUE /\ Ev.step = step /\ R!Move(Ev.s, Ev.m)
           [] Ev.e = "smove" -> Ev.step = step /\ R!Smove(Ev.k)
           [] Ev.e = "rec" -> R!Record(Ev.o) /\ Ev.l = step /\ Ev.v = R!Value(Ev.o)
           [] Ev.e = "request" -> R!Request
           [] Ev.e = "asked" -> R!End(TRUE)      \* EXIT file or time limit
           [] Ev.e = "restart" -> R!WriteRestart(Ev.b)
           [] Ev.e = "end" -> pc = "ended" /\ Same   \* run() has returned, with this step number
           [] Ev.e = "stopped" -> Ev.ok /\ pc = "ended" /\ Same
           [] Ev.e = "files" -> (pc = "ended" /\ (\A o \in R!Recs : /\ Labels(file[o]) = Ev.labels[o]
                                                                 /\ (o \in Range(Ev.full) => file[o] = Ev.files[o]))) = TRUE /\ Same
           [] Ev.e = "exit" -> pc = "ended" /\ restart # R!None /\ Same
           \* an interactive simulation has done some steps, and is asked for no more at the moment
           [] Ev.e = "paused" -> pc \in {"between", "ended"} /\ Ev.step = step /\ Ev.b = R!Current(step) /\ Same
           [] Ev.e = "status" -> (trig \/ Ev.finished = finished) = TRUE /\ Same
           [] Ev.e = "resume" -> Ev.step = restart.step /\ Ev.st = restart.st /\ R!Resume
           [] Ev.e = "refused" -> restart.step >= w.total /\ Same
           [] OTHER -> FALSE
Silent == R!Recorded \/ R!Begin \/ R!Complete \/ R!Abort \/ (R!End(FALSE))
TNext == \/ l < Len(Traces[tid]) /\ Event /\ l' = l + 1 /\ tid' = tid
         \/ l < Len(Traces[tid]) /\ Silent /\ UNCHANGED <<tid, l>>
Spec == TInit /\ [][TNext]_all
Track == TrackAt(tid, l)
=============================================================================
