----------------------------- MODULE TraceData -----------------------------
(* The batch of recorded executions of the real code that this run checks. *)
EXTENDS Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
=============================================================================
