------------------------------ MODULE TraceBase ------------------------------
(* Several recorded executions are validated in one TLC run: tid selects the  *)
(* execution, l the number of events explained so far.  Register t keeps the  *)
(* longest explained prefix of execution t; the POSTCONDITION prints them and *)
(* the driver accepts an execution iff all its events were explained.         *)
(* Needs -workers 1.  Configurations say  CONSTRAINT Track  and               *)
(* POSTCONDITION Report.                                                      *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(JsonDeserialize(IOEnv.TRACE_IN))
NT == Len(Traces)
ASSUME \A t \in 1..NT : TLCSet(t, 0)
TrackAt(t, k) == IF TLCGet(t) < k THEN TLCSet(t, k) ELSE TRUE
Report == PrintT("PROGRESS " \o ToJson([t \in 1..NT |-> TLCGet(t)]))
=============================================================================
