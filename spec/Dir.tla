-------------------------------- MODULE Dir --------------------------------
(* What happens to the files of a directory in which simulations are run:     *)
(* files which a run starts anew are first moved away, those of a continued   *)
(* run are extended, a checkpoint is replaced only by a complete one, and a   *)
(* process can be killed at any moment.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
    dir,    \* name -> content, a sequence of pieces: who wrote them.  Negative: incomplete
    keep,   \* history: contents which have to be found again
    last    \* history: number of checkpoints completed
dvars == <<dir, keep, last>>
Put(d, n, c) == [x \in DOMAIN d \cup {n} |-> IF x = n THEN c ELSE d[x]]
Drop(d, n) == [x \in DOMAIN d \ {n} |-> d[x]]
Move(d, n, b) == IF n \in DOMAIN d THEN Put(Drop(d, n), b, d[n]) ELSE d
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* an output of a fresh run: what is there is moved to a name not in use
OpenFresh(n, b, id) ==
    /\ b \notin DOMAIN dir
    /\ dir' = Put(Move(dir, n, b), n, <<id>>)
    /\ UNCHANGED <<keep, last>>
\* an output of a continued run
OpenAppend(n, id) ==
    /\ dir' = Put(dir, n, IF n \in DOMAIN dir THEN Append(dir[n], id) ELSE <<id>>)
    /\ UNCHANGED <<keep, last>>
\* a checkpoint is first written under another name, and takes its place when it is complete.
\* The first one of a process does not replace that of another one
ChkBegin(t, b, id) ==
    /\ b \notin DOMAIN dir
    /\ dir' = Put(Move(dir, t, b), t, <<-id>>)
    /\ UNCHANGED <<keep, last>>
ChkWhole(t, id) ==
    /\ t \in DOMAIN dir
    /\ dir' = Put(dir, t, <<id>>)
    /\ last' = last + 1
    /\ UNCHANGED keep
ChkMove(n, b) ==
    /\ b \notin DOMAIN dir
    /\ dir' = Move(dir, n, b)
    /\ UNCHANGED <<keep, last>>
ChkReplace(t, n) ==
    /\ t \in DOMAIN dir
    /\ dir' = Put(Drop(dir, t), n, dir[t])
    /\ UNCHANGED <<keep, last>>
\* whatever was there before a process started is still there
Preserved == \A c \in keep : \E n \in DOMAIN dir : Prefix(c, dir[n])
------------------------------------------------------------------------------
\* the outcome of a process that came to its end, from before to after.
\* T: outputs, C: checkpoints which are overwritten, N: numbered checkpoints written, id: the process
Outcome(b, a, fresh, T, C, N, id) ==
    LET moved == DOMAIN b \cap ((IF fresh THEN T ELSE {}) \cup C \cup N)
        back == (DOMAIN a \ DOMAIN b) \ (T \cup C \cup N)
    IN  /\ DOMAIN b \subseteq DOMAIN a
        /\ \A n \in moved : \E x \in back : a[x] = b[n]
        /\ Cardinality(back) = Cardinality(moved)
        /\ \A n \in DOMAIN b \ (T \cup C \cup N) : a[n] = b[n]
        /\ \A n \in T : n \in DOMAIN a /\ (IF fresh \/ n \notin DOMAIN b THEN a[n] = <<id>> ELSE a[n] \in {b[n], Append(b[n], id)})
        /\ \A n \in C \cup N : n \in DOMAIN a /\ a[n] = <<id>>
\* the outcome of one which was killed
Killed(b, a) == \A n \in DOMAIN b : \E x \in DOMAIN a : Prefix(b[n], a[x])
=============================================================================
