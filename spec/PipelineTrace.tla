---------------------------- MODULE PipelineTrace ----------------------------
(* Recorded runs, event by event, against Pipeline. *)
EXTENDS Pipeline, Json, IOUtils
TraceCases == JsonDeserialize(IOEnv.CASES)
=============================================================================
