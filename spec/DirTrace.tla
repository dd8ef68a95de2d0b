------------------------------ MODULE DirTrace ------------------------------
EXTENDS Integers, FiniteSets, TraceBase
VARIABLES tid, l, dir, keep, last
D == INSTANCE Dir
Ev == Traces[tid][l + 1]
Range(s) == {s[i] : i \in 1..Len(s)}
\* a directory arrives as a sequence of [n |-> name, c |-> content]
Dir(s) == [n \in {s[i].n : i \in 1..Len(s)} |-> (CHOOSE i \in 1..Len(s) : s[i].n = n)]
Cont(s) == LET d == Dir(s) IN [n \in DOMAIN d |-> s[d[n]].c]
TInit == tid \in 1..NT /\ l = 1 /\ dir = Cont(Traces[tid][1].dir) /\ keep = {} /\ last = -1
Event == LET a == Cont(Ev.dir) IN
    /\ CASE Ev.e = "run" -> D!Outcome(dir, a, Ev.fresh, Range(Ev.T), Range(Ev.C), Range(Ev.N), Ev.id)
                             /\ (Ev.clean => Range(Ev.N) \cap DOMAIN dir = {})   \* the numbers go on
         [] Ev.e = "killed" -> D!Killed(dir, a)
         [] Ev.e = "opened" -> D!Outcome(dir, a, Ev.fresh, Range(Ev.T), {}, {}, Ev.id)
         [] OTHER -> FALSE
    \* a complete checkpoint, not older than the last one known to be written
    /\ (last < 0 \/ Ev.fresh \/ Ev.best >= last) /\ (Ev.done < 0 \/ Ev.best >= Ev.done)
Update == /\ dir' = Cont(Ev.dir) /\ keep' = {} /\ last' = (IF Ev.done >= 0 THEN Ev.done ELSE IF Ev.fresh THEN -1 ELSE last)
TNext == l < Len(Traces[tid]) /\ (Event) = TRUE /\ Update /\ l' = l + 1 /\ tid' = tid
Spec == TInit /\ [][TNext]_<<tid, l, dir, keep, last>>
Track == TrackAt(tid, l)
=============================================================================
