------------------------------- MODULE BatchMC -------------------------------
EXTENDS Batch
CONSTANTS CN, CS
MInit == setup = [n |-> CN, size |-> CS, idle |-> CS] /\ Init
Spec == MInit /\ [][Next]_vars
FairSpec == Spec /\ WF_dyn(Launch) /\ WF_dyn(Idle) /\ \A r \in 1..CN : SF_dyn(Take(r))
Answered == \A r \in 1..CN : st[r] = "queued" ~> st[r] = "done"
=============================================================================
