-------------------------------- MODULE Emit --------------------------------
(***************************************************************************)
(* Behaviours of the models below are handed to the harness as cases: one  *)
(* JSON record per case is appended to the file that the environment names *)
(* in CASES.  Without it the models are only checked.                      *)
(***************************************************************************)
EXTENDS CSV, Json, IOUtils

Emitting == "CASES" \in DOMAIN IOEnv
Emit(kind, c) == IF Emitting THEN CSVWrite("%1$s", <<ToJson([k |-> kind, c |-> c])>>, IOEnv.CASES) ELSE TRUE
=============================================================================
