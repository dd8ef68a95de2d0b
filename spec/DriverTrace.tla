----------------------------- MODULE DriverTrace -----------------------------
(* Recorded conversations: what the server sent and read, in its order; the   *)
(* driver reads its messages at any time in between (silent steps).           *)
EXTENDS Integers, Sequences, TraceBase
VARIABLES tid, l, setup, wire, back, dinit, held, gone, sinit, last, open, expect, act
D == INSTANCE Driver
all == <<tid, l, setup, wire, back, dinit, held, gone, sinit, last, open, expect, act>>
Ev == Traces[tid][l + 1]
TInit == tid \in 1..NT /\ l = 1 /\ setup = Traces[tid][1] /\ D!Init
Same == UNCHANGED <<wire, back, dinit, held, gone, sinit, last, open, expect, act>>
\* energy, forces, virial and extras all belong to the structures of the answer
Answer == /\ back # <<>>
          /\ LET b == Head(back) IN
             IF b.t = "status" THEN Ev.e = "word" /\ Ev.w = b.w
             ELSE Ev.e = "force" /\ Ev.pot = b.s /\ Ev.force = b.s /\ Ev.vir = b.s /\ Ev.extra = b.s
          /\ D!Recv
\* the process ended by itself
Left == gone /\ Same
Step == CASE Ev.e = "status" -> D!Status
          [] Ev.e = "init" -> D!InitM
          [] Ev.e = "pos" -> D!Pos(Ev.s)
          [] Ev.e = "get" -> D!GetForce
          [] Ev.e \in {"exit", "drop", "cut"} -> D!Leave(Ev.e)
          [] Ev.e \in {"word", "force"} -> Answer
          [] Ev.e = "left" -> Left
          [] OTHER -> FALSE
TNext == /\ l < Len(Traces[tid])
         /\ \/ Step /\ l' = l + 1
            \/ D!Handle /\ l' = l
         /\ tid' = tid /\ setup' = setup
Spec == TInit /\ [][TNext]_all
Track == TrackAt(tid, l)
=============================================================================
