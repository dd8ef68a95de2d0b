-------------------------------- MODULE Emit --------------------------------
(* Emission of the labelled transition graph explored by TLC, one JSON line  *)
(* per initial state and per transition, to the file named by EMIT_OUT.      *)
(* The conformance drivers replay every emitted transition into the code.    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, CSV

EmitLine(rec) == CSVWrite("%1$s", <<ToJson(rec)>>, IOEnv.EMIT_OUT)
=============================================================================
