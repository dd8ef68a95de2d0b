-------------------------------- MODULE MpiMC --------------------------------
(* Mpi.tla with the worker owners and request targets of a configuration.     *)
EXTENDS Mpi
CONSTANTS CW, CF, CR, CB
MInit == /\ world = [nw |-> CW, nf |-> CF, nr |-> CR, batch |-> CB,
                     owner |-> [w \in 1..CW |-> ((w - 1) % CF) + 1],
                     reqff |-> [r \in 1..CR |-> ((r - 1) % CF) + 1]]
         /\ Init
Spec == MInit /\ [][Next]_vars
\* with a server that keeps polling and workers that answer, nothing is left
Fair == /\ \A w \in 1..CW : WF_dyn(SendInit(w)) /\ WF_dyn(Answer(w)) /\ SF_dyn(Collect(w))
        /\ \A w \in 1..CW : SF_dyn(\E b \in Batches : SendWork(w, b))
        /\ \A w \in 1..CW : SF_dyn(SendInit(w)) /\ SF_dyn(SendExit(w))
FairSpec == Spec /\ Fair
AllAnswered == \A r \in 1..CR : st[r] = "queued" ~> st[r] \in {"done", "exit"}
AllTold == \A w \in 1..CW : pool[w] \in stopped ~> w \in exited
=============================================================================
