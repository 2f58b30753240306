--------------------------- MODULE OffsetHiveTrace ---------------------------
(* Recorded searches against OffsetHive. *)
EXTENDS OffsetHive, Json, IOUtils
TraceCases == JsonDeserialize(IOEnv.CASES)
=============================================================================
