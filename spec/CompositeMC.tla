----------------------------- MODULE CompositeMC -----------------------------
EXTENDS Composite, Emit
CONSTANTS CP, CM
MInit == /\ setup = [np |-> CP, nm |-> CM, w |-> [m \in 1..CM |-> m], norm |-> CM,
                     val |-> [p \in 1..CP |-> [m \in 1..CM |-> 10 * p + m]]]
         /\ Init
Spec == MInit /\ [][Next]_vars
Fair == /\ \A p \in 1..CP : WF_dyn(Gather(p))
        /\ \A p \in 1..CP, m \in 1..CM : WF_dyn(Finish(p, m))
FairSpec == Spec /\ Fair
Answered == \A p \in 1..CP : pst[p] = "queued" ~> pst[p] = "done"
EmitTr == EmitLine(act')
=============================================================================
