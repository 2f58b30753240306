------------------------------- MODULE Determ -------------------------------
(* A case is a set of runs on one input with options that mean the same:      *)
(* they differ in numbers of threads, in options that only concern speed or   *)
(* reports, in scheduling, names of files and orders of options, and some     *)
(* are not in deterministic mode.  What the first of the deterministic ones   *)
(* gave, all have to give; runs in the other mode may only differ in which of *)
(* equally good blockmaps they took, when there was a choice, and in the      *)
(* places of lumps in the file.                                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, C, i, bad
vars == <<c, C, i, bad>>
R == C.runs
Good(l) == CASE C.goal = 1 -> l.cls = 0 [] C.goal = 2 -> l.cls < 2 [] OTHER -> FALSE
SameMap(a, b) ==
  IF ~C.search THEN a.sum = b.sum
  ELSE \/ Good(a) /\ Good(b)                       \* the goal was reached
       \/ /\ ~Good(a) /\ ~Good(b) /\ a.cls = b.cls  \* equally good
          /\ (a.cls < 2 => a.size = b.size)
Differ(a, b) ==
  IF a.det /\ b.det THEN IF a.file = b.file THEN {} ELSE {<<"file", i>>}
  ELSE IF [k \in 1..Len(a.lumps) |-> a.lumps[k].name] # [k \in 1..Len(b.lumps) |-> b.lumps[k].name] THEN {<<"directory", i>>}
  ELSE {<<a.lumps[k].name, i>> : k \in {k \in 1..Len(a.lumps) :
            IF a.lumps[k].name = "BLOCKMAP" THEN ~SameMap(a.lumps[k], b.lumps[k])
            ELSE a.lumps[k].sum # b.lumps[k].sum}}
Init == c \in 1..Len(Cases) /\ C = Cases[c] /\ i = 2 /\ bad = {}
Next == i <= Len(R) /\ bad' = bad \cup Differ(R[1], R[i]) /\ i' = i + 1 /\ UNCHANGED <<c, C>>
Spec == Init /\ [][Next]_vars
Conforms == i <= Len(R) \/ bad = {} \/ (PrintT(<<"VV-BAD", c, bad>>) /\ FALSE)
=============================================================================
