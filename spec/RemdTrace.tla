------------------------------ MODULE RemdTrace ------------------------------
(* Recorded exchange steps.  "low" says that the random number is below the   *)
(* Metropolis probability computed independently from the published state;    *)
(* it decides between acceptance and rejection.  "now" is the state observed  *)
(* when the pair is done.                                                     *)
EXTENDS Integers, Sequences, TraceBase
VARIABLES tid, l, setup, ens, mom, ref, idx, con, pair, phase, act
R == INSTANCE Remd
Ev == Traces[tid][l + 1]
all == <<tid, l, setup, ens, mom, ref, idx, con, pair, phase, act>>
TInit == tid \in 1..NT /\ l = 1 /\ setup = Traces[tid][1] /\ R!Init
Same == UNCHANGED <<ens, mom, ref, idx, con, pair, phase, act>>
Has(q, x) == \E k \in 1..Len(q) : q[k] = x
Now == /\ phase = "pair" /\ Ev.ens = ens /\ Ev.idx = idx /\ Ev.rest
       /\ (\A s \in 1..setup.n : Has(Ev.mom[s], mom[s]) /\ Has(Ev.ref[s], ref[s]) /\ Ev.con[s] = con[s]) = TRUE
       /\ Same
Step == CASE Ev.e = "skip" -> R!Skip
          [] Ev.e = "try" -> R!Try
          [] Ev.e = "decide" -> IF Ev.low THEN R!Accept ELSE R!Reject
          [] Ev.e = "now" -> Now
          \* the file gets a line exactly when something was exchanged
          [] Ev.e = "file" -> /\ (Ev.lines = (IF Ev.swaps > 0 THEN 1 ELSE 0)) = TRUE
                              /\ (Ev.lines = 0 \/ Ev.idx = idx) = TRUE
                              /\ pair = <<2, 1>> /\ Same
          [] OTHER -> FALSE
TNext == l < Len(Traces[tid]) /\ Step /\ l' = l + 1 /\ tid' = tid /\ setup' = setup
Spec == TInit /\ [][TNext]_all
Track == TrackAt(tid, l)
=============================================================================
