--------------------------- MODULE FileLifeTrace ---------------------------
(* Recorded runs, operation by operation: every state of the disk and the    *)
(* ending against FileLife.                                                  *)
EXTENDS FileLife, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, k, bad
vars == <<c, k, bad>>
C == Cases[c]
S == C.states
Init == c \in 1..Len(Cases) /\ k = 1
        /\ bad = IF NoLoss(S[1]) THEN {} ELSE {<<"start">>}
Step == /\ k < Len(S) /\ k' = k + 1 /\ UNCHANGED c
        /\ bad' = bad \cup (IF Allowed(S[k], S[k + 1], C.inplace) THEN {} ELSE {<<"step", k, S[k], S[k + 1]>>})
                      \cup (IF NoLoss(S[k + 1]) THEN {} ELSE {<<"lost", k>>})
End == /\ k = Len(S) /\ k' = k + 1 /\ UNCHANGED c
       /\ bad' = bad \cup (IF EndOk(S[k], C.inplace, C.status, C.claim, C.unremovable) THEN {} ELSE {<<"ending", C.status, S[k]>>})
                     \cup (IF C.must => C.status = "ok" THEN {} ELSE {<<"refused">>})
                     \cup (IF C.never => (C.status = "fail" /\ S[k] = S[1]) THEN {} ELSE {<<"touched">>})
Spec == Init /\ [][Step \/ End]_vars
Conforms == k = Len(S) + 1 => (bad = {} \/ (PrintT(<<"VV-BAD", c, bad>>) /\ FALSE))
=============================================================================
