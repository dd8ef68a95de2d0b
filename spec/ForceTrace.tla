------------------------------ MODULE ForceTrace ------------------------------
(* Recorded histories of two force objects.  "ok" says that the values read   *)
(* are those of the definition, computed independently from the positions and *)
(* cell of that moment; "ev" are the components evaluated during the read.    *)
EXTENDS Integers, Sequences, TraceBase
VARIABLES tid, l, setup, pos, cel, got, zero, saved, clock, act
F == INSTANCE Force
Ev == Traces[tid][l + 1]
all == <<tid, l, setup, pos, cel, got, zero, saved, clock, act>>
TInit == tid \in 1..NT /\ l = 1 /\ setup = Traces[tid][1] /\ F!Init
Step == CASE Ev.e = "read" -> /\ Ev.ok /\ Ev.whole
                              /\ F!Read(Ev.o, Ev.what, Ev.k)
                              /\ act'.ev = {Ev.ev[i] : i \in 1..Len(Ev.ev)}
          [] Ev.e = "write" -> F!Write(Ev.o, Ev.what)
          [] Ev.e = "sync" -> F!Sync(Ev.o, Ev.from)
          [] Ev.e = "weight" -> F!Weight(Ev.c, Ev.on)
          [] Ev.e = "transfer" -> F!Transfer(Ev.o, Ev.from)
          [] Ev.e = "dump" -> F!Dump
          [] Ev.e = "load" -> F!Load
          [] OTHER -> FALSE
TNext == l < Len(Traces[tid]) /\ Step /\ l' = l + 1 /\ tid' = tid /\ setup' = setup
Spec == TInit /\ [][TNext]_all
Track == TrackAt(tid, l)
=============================================================================
