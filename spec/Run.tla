-------------------------------- MODULE Run --------------------------------
(* The control of a simulation: steps, movers, records, exit requests and the *)
(* RESTART file, over the lives of several processes in one directory.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
    w,        \* the world, never changes: nsys, movers (per system), sm, threads, total, safe, outs, fin
    step,     \* number of the step being performed, or performed next
    st,       \* state of the systems: number of times each mover has acted on it, per system
    pc,       \* "initial", "begin", "moving", "smoving", "recording", "between", "ended"
    pos,      \* next mover of each system; next smotion under 0
    left,     \* outputs still to be written in this phase
    file,     \* contents of the outputs: sequence of [l |-> label, v |-> value]
    saved,    \* boundary which is written if the run stops inside a step
    trig,     \* an exit was requested
    aborted,  \* the run left its loop because of that
    finished, \* a motion reported completion in this run
    restart,  \* RESTART of this process: a boundary, or none
    bounds,   \* history: all boundaries there have been
    skipped,  \* history: steps which ended the run, and were not recorded
    torn      \* history: an exit was requested while records were being written
rvars == <<w, step, st, pc, pos, left, file, saved, trig, aborted, finished, restart, bounds, skipped, torn>>
None == [step |-> -1]
Sys == 1..w.nsys
Outs == 1..Len(w.outs)
Recs == {o \in Outs : w.outs[o].kind # "chk"}
Current(n) == [step |-> n, st |-> st]
Due(n) == {o \in Outs : n % w.outs[o].stride = 0}
NoPos == [i \in 0..w.nsys |-> 1]
Zero == [i \in Sys |-> [k \in 1..(w.movers[i] + w.sm) |-> 0]]
Start == /\ step = 0 /\ st = Zero /\ pc = "initial" /\ pos = NoPos /\ left = Outs
         /\ file = [o \in Outs |-> <<>>] /\ saved = [step |-> 0, st |-> Zero] /\ trig = FALSE /\ aborted = FALSE
         /\ finished = FALSE /\ restart = None /\ bounds = {[step |-> 0, st |-> Zero]} /\ skipped = {} /\ torn = FALSE
\* one record, in the order of the outputs unless they are written by threads
Turn(o, S) == o \in S /\ (w.threads \/ trig \/ \A p \in S : o <= p)
Value(o) == IF w.outs[o].kind = "chk" THEN [step |-> step, st |-> st] ELSE [step |-> step, st |-> <<st[w.outs[o].sys]>>]
Record(o) ==
    /\ pc \in {"initial", "recording"} /\ Turn(o, left)   \* also after a request: a record can be under way
    /\ file' = [file EXCEPT ![o] = Append(@, [l |-> step, v |-> Value(o)])]
    /\ left' = left \ {o}
    /\ UNCHANGED <<w, step, st, pc, pos, saved, trig, aborted, finished, restart, bounds, skipped, torn>>
\* after the last one the next step can begin
Recorded ==
    /\ pc \in {"initial", "recording"} /\ left = {}
    /\ pc' = "between"
    /\ UNCHANGED <<w, step, st, pos, left, file, saved, trig, aborted, finished, restart, bounds, skipped, torn>>
Begin ==
    /\ pc = "between" /\ step < w.total /\ ~trig /\ ~finished
    /\ saved' = IF step % w.safe = 0 THEN Current(step) ELSE saved
    /\ pc' = "moving" /\ pos' = NoPos
    /\ UNCHANGED <<w, step, st, left, file, trig, aborted, finished, restart, bounds, skipped, torn>>
\* a mover of a system acts; if it reports completion the others of its list do not act any more
Finishes(i, m) == [s |-> i, m |-> m, at |-> step] \in w.fin
Add(v, k) == [v EXCEPT ![k] = @ + 1]
Move(i, m) ==
    /\ pc = "moving" /\ m = pos[i] /\ m <= w.movers[i]
    /\ w.threads \/ \A j \in Sys : j < i => pos[j] > w.movers[j]
    /\ st' = [st EXCEPT ![i] = Add(@, m)]
    /\ pos' = [pos EXCEPT ![i] = IF Finishes(i, m) THEN w.movers[i] + 1 ELSE m + 1]
    /\ finished' = (finished \/ Finishes(i, m))
    /\ UNCHANGED <<w, step, pc, left, file, saved, trig, aborted, restart, bounds, skipped, torn>>
Moved == pc = "moving" /\ \A i \in Sys : pos[i] > w.movers[i]
\* the motion of several systems
Smove(k) ==
    /\ Moved /\ ~finished /\ k = pos[0] /\ k <= w.sm
    /\ st' = [i \in Sys |-> Add(st[i], w.movers[i] + k)]
    /\ pos' = [pos EXCEPT ![0] = k + 1]
    /\ UNCHANGED <<w, step, pc, left, file, saved, trig, aborted, finished, restart, bounds, skipped, torn>>
\* the step is complete: it counts from now on
Complete ==
    /\ Moved /\ ~trig
    /\ finished \/ pos[0] > w.sm
    /\ step' = step + 1
    /\ bounds' = bounds \cup {Current(step + 1)}
    /\ IF finished THEN /\ pc' = "ended" /\ left' = {} /\ skipped' = skipped \cup {step + 1}
                   ELSE /\ pc' = "recording" /\ left' = Due(step + 1) /\ UNCHANGED skipped
    /\ UNCHANGED <<w, st, pos, file, saved, trig, aborted, finished, restart, torn>>
\* all steps are done, or the run is told to stop between two steps (EXIT file, time limit)
End(asked) ==
    /\ pc = "between" /\ ~trig
    /\ asked \/ step = w.total
    /\ pc' = "ended"
    /\ UNCHANGED <<w, step, st, pos, left, file, saved, trig, aborted, finished, restart, bounds, skipped, torn>>
\* an exit is requested, by any thread, at any time
Request ==
    /\ trig' = TRUE
    /\ torn' = (torn \/ pc \in {"recording", "between"})
    /\ UNCHANGED <<w, step, st, pc, pos, left, file, saved, aborted, finished, restart, bounds, skipped>>
\* which the loop notices sooner or later
Abort ==
    /\ trig /\ pc # "ended"
    /\ pc' = "ended" /\ aborted' = TRUE
    /\ UNCHANGED <<w, step, st, pos, left, file, saved, trig, finished, restart, bounds, skipped, torn>>
\* the one and only time RESTART is written by a process
Restarts == IF pc = "ended" /\ ~aborted THEN {Current(step)}
            ELSE IF pc = "between" /\ w.safe = 1 THEN {saved, Current(step)}
            ELSE {saved}
WriteRestart(b) ==
    /\ trig /\ restart = None /\ b \in Restarts
    /\ restart' = b
    /\ UNCHANGED <<w, step, st, pc, pos, left, file, saved, trig, aborted, finished, bounds, skipped, torn>>
\* another process continues from it.  A run which has not got past its start begins again: its files are moved away
Resume ==
    /\ pc = "ended" /\ trig /\ restart # None /\ restart.step < w.total
    /\ step' = restart.step /\ st' = restart.st /\ saved' = restart
    /\ pc' = (IF restart.step = 0 THEN "initial" ELSE "between")
    /\ left' = (IF restart.step = 0 THEN Outs ELSE {})
    /\ file' = (IF restart.step = 0 THEN [o \in Outs |-> <<>>] ELSE file)
    /\ torn' = (IF restart.step = 0 THEN FALSE ELSE torn)
    /\ pos' = NoPos /\ trig' = FALSE /\ aborted' = FALSE /\ finished' = FALSE /\ restart' = None
    /\ UNCHANGED <<w, bounds, skipped>>
------------------------------------------------------------------------------
\* RESTART describes a completed step boundary
RestartIsBoundary == restart # None => restart \in bounds
\* where every mover has acted as often as the step says
Acted(b) == \A i \in Sys : \A k \in DOMAIN b.st[i] : b.st[i][k] = b.step
Boundaries == \A b \in bounds : skipped = {} => Acted(b)
\* every file holds the due steps up to the one it has got to, once each and in order
IsDue(o, n) == n % w.outs[o].stride = 0 /\ n \notin skipped
Strict(s) == \A a, b \in DOMAIN s : a < b => s[a].l < s[b].l
Whole(o, n) == \A k \in 0..n : IsDue(o, k) <=> \E a \in DOMAIN file[o] : file[o][a].l = k
Files == ~torn /\ w.safe = 1 => \A o \in Recs : Strict(file[o]) /\
            (pc \in {"between", "ended"} /\ restart # None /\ restart.step > 0 => Whole(o, restart.step))
\* and each record is current
Current1 == \A o \in Outs : \A a \in DOMAIN file[o] : file[o][a].v.step = file[o][a].l
                /\ \E b \in bounds : b.step = file[o][a].l /\ file[o][a].v.st = (IF w.outs[o].kind = "chk" THEN b.st ELSE <<b.st[w.outs[o].sys]>>)
\* no step beyond the total
Bounded == step <= w.total
=============================================================================
