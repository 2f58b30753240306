----------------------------- MODULE Container -----------------------------
(* The byte layout of an archive as regions laid over the file, one entry at *)
(* a time.  Header first, then the directory, then every lump: each region   *)
(* must lie inside the file and may not touch bytes already claimed, with    *)
(* one exception: all-zero reject tables may share bytes with each other and *)
(* with zero bytes of anything else, as long as no two start at the same     *)
(* offset.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, k, claimed, starts, bad
vars == <<c, k, claimed, starts, bad>>
C == Cases[c]
E == C.ents       \* sequence of [n, pos, size, z] ; z: an all-zero reject of a zero-reject run

(* claimed: set of <<from, to>> half-open byte intervals that belong to one owner *)
Hits(a, b) == \E r \in claimed : r[1] < b /\ a < r[2]
Dir == <<C.dir, C.dir + 16 * Len(E)>>

Init == /\ c \in 1..Len(Cases)
        /\ k = 0 /\ starts = {} /\ bad = {} /\ claimed = {<<0, 12>>}

Directory == /\ k = 0 /\ k' = 1
             /\ bad' = bad \cup (IF Dir[2] > C.len THEN {<<"dir-outside">>} ELSE {})
                           \cup (IF Hits(Dir[1], Dir[2]) THEN {<<"dir-overlap">>} ELSE {})
                           \cup (IF C.count # Len(E) THEN {<<"count">>} ELSE {})
             /\ claimed' = claimed \cup {Dir}
             /\ UNCHANGED <<c, starts>>

Lump == /\ k >= 1 /\ k <= Len(E)
        /\ LET e == E[k]
               a == e.pos
               b == e.pos + e.size
           IN IF e.size = 0
              THEN UNCHANGED <<bad, claimed, starts>>      \* the offset of an empty lump means nothing
              ELSE IF e.z
              THEN /\ bad' = bad \cup (IF b > C.len THEN {<<"outside", k, e.n>>} ELSE {})
                                 \cup (IF a \in starts THEN {<<"same-start", k>>} ELSE {})
                                 \cup (IF ~e.zero THEN {<<"not-zero", k>>} ELSE {})
                   /\ starts' = starts \cup {a}
                   /\ UNCHANGED claimed
              ELSE /\ bad' = bad \cup (IF b > C.len \/ a < 12 THEN {<<"outside", k, e.n>>} ELSE {})
                                 \cup (IF Hits(a, b) THEN {<<"overlap", k, e.n>>} ELSE {})
                   /\ claimed' = claimed \cup {<<a, b>>}
                   /\ UNCHANGED starts
        /\ k' = k + 1
        /\ UNCHANGED c

Next == Directory \/ Lump
Spec == Init /\ [][Next]_vars
Finished == k = Len(E) + 1
Conforms == Finished => (bad = {} \/ (PrintT(<<"VV-BAD", c, bad>>) /\ FALSE))
=============================================================================
