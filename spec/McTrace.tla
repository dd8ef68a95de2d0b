-------------------------------- MODULE McTrace -------------------------------
(* Recorded Monte Carlo rounds.  "low": the random number is below the        *)
(* Metropolis probability of the full energy change, computed independently.  *)
(* "now" is the observed state when no try is under way; "move" is a piece of *)
(* dynamics in between, after which the labels are given anew (they are read  *)
(* off the positions for swaps; for alchemy they stay).                       *)
EXTENDS Integers, Sequences, TraceBase
VARIABLES tid, l, setup, at, left, first, second, account, acc, act
M == INSTANCE Mc
Ev == Traces[tid][l + 1]
all == <<tid, l, setup, at, left, first, second, account, acc, act>>
TInit == tid \in 1..NT /\ l = 1 /\ setup = Traces[tid][1] /\ M!Init
Same == UNCHANGED <<at, left, first, second, account, acc, act>>
Draw(a) == IF first = 0 THEN M!DrawFirst(a) ELSE M!DrawSecond(a)
Step == CASE Ev.e = "round" -> M!Round(Ev.n)
          [] Ev.e = "draw" -> Draw(Ev.a)
          [] Ev.e = "decide" -> IF Ev.low THEN M!Accept ELSE M!Reject
          [] Ev.e = "now" -> first = 0 /\ Ev.at = at /\ Ev.rest /\ Ev.con = 0 /\ Same
          [] Ev.e = "end" -> M!Ready /\ Same
          [] Ev.e = "move" -> /\ M!Ready
                              /\ at' = IF setup.kind = "swap" THEN [a \in 1..setup.n |-> a] ELSE at
                              /\ account' = 0 /\ act' = [op |-> "move"]
                              /\ UNCHANGED <<left, first, second, acc>>
          [] OTHER -> FALSE
TNext == l < Len(Traces[tid]) /\ Step /\ l' = l + 1 /\ tid' = tid /\ setup' = setup
Spec == TInit /\ [][TNext]_all
Track == TrackAt(tid, l)
=============================================================================
