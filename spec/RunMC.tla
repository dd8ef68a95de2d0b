------------------------------- MODULE RunMC -------------------------------
EXTENDS Run
CONSTANTS NSys, Total, Threads, MaxLives, SM, Safe, Fin
VARIABLE lives
World == [nsys |-> NSys, movers |-> [i \in 1..NSys |-> IF i = 1 THEN 2 ELSE 1], sm |-> SM, threads |-> Threads, total |-> Total, safe |-> Safe,
          outs |-> <<[kind |-> "rec", stride |-> 1, sys |-> 1], [kind |-> "rec", stride |-> 2, sys |-> NSys], [kind |-> "chk", stride |-> 2, sys |-> 0]>>,
          fin |-> IF Fin THEN {[s |-> NSys, m |-> 1, at |-> 1]} ELSE {}]
Init == w = World /\ Start /\ lives = 1
Next == \/ /\ \/ \E o \in Outs : Record(o)
              \/ Recorded \/ Begin \/ Complete \/ Abort
              \/ \E i \in Sys : \E m \in 1..2 : Move(i, m)
              \/ \E k \in 1..2 : Smove(k)
              \/ \E a \in BOOLEAN : End(a)
              \/ (~trig /\ Request)
              \/ \E b \in Restarts : WriteRestart(b)
           /\ UNCHANGED lives
        \/ lives < MaxLives /\ Resume /\ lives' = lives + 1
Spec == Init /\ [][Next]_<<rvars, lives>> /\ WF_<<rvars, lives>>(Next)
\* whatever happens, a process ends and leaves a RESTART
Leaves == <>(pc = "ended" /\ restart # None)
\* left alone it performs all steps
=============================================================================
