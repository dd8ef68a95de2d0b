-------------------------------- MODULE FixTrace -------------------------------
(* Recorded constrained motion, observed between steps: which atoms have moved *)
(* in this step (relative to the cell if that moves), which have momentum,     *)
(* whether the centre of mass has moved or has momentum, and whether the       *)
(* conserved quantity is what it was.  A step is a sequence of the             *)
(* specification's actions that ends constrained, so that it may move any free *)
(* atom and must leave the invariants true; "user" sets momenta and is         *)
(* followed by a step (or by building the simulation, "made").                 *)
EXTENDS Integers, Sequences, FiniteSets, TraceBase
VARIABLES tid, l, setup, kin, moved, pcom, qcom, account, input, dirty, act
M == INSTANCE Fix
Ev == Traces[tid][l + 1]
all == <<tid, l, setup, kin, moved, pcom, qcom, account, input, dirty, act>>
Set(s) == {s[i] : i \in 1..Len(s)}
TInit == /\ tid \in 1..NT /\ l = 1
         /\ setup = [n |-> Traces[tid][1].n, fixed |-> Set(Traces[tid][1].fixed), com |-> Traces[tid][1].com]
         /\ M!Init
Quanta(s) == [a \in M!Atoms |-> IF a \in Set(s) THEN 1 ELSE 0]
User == M!User(Quanta(Ev.hot), Ev.pcom)
Step == /\ kin' = Quanta(Ev.hot)
        /\ moved' = moved \cup Set(Ev.moved)
        /\ pcom' = Ev.pcom
        /\ qcom' = (qcom \/ Ev.qcom)
        /\ dirty' = FALSE
        \* energy leaves or enters the momenta only by way of the account
        /\ input' = (IF Ev.balanced THEN input ELSE input + 1)
        /\ account' = input - M!Sum(kin', M!Atoms)
        /\ act' = [e |-> Ev.e]
        /\ (M!Still /\ M!Cold /\ M!Centred /\ M!Conserved)'
TNext == /\ l < Len(Traces[tid])
         /\ setup' = setup
         /\ CASE Ev.e = "user" -> User
              [] Ev.e \in {"made", "step"} -> Step
              [] OTHER -> FALSE
         /\ l' = l + 1 /\ tid' = tid
Spec == TInit /\ [][TNext]_all
Track == TrackAt(tid, l)
=============================================================================
