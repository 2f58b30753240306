------------------------------- MODULE Archive ------------------------------
(* Reading an input archive: header, directory, entries.  Decides from the   *)
(* bytes of the header and the directory whether a run has to refuse the     *)
(* file, has to take it, or may do either (damage in lumps that need not be  *)
(* read); and what a run that refuses leaves behind: an explanation and      *)
(* nothing else.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, phase, at, verdict, late, bad       \* late: the output file has been opened by the time the damage is met
vars == <<c, phase, at, verdict, late, bad>>
C == Cases[c]

Digits == {"0","1","2","3","4","5","6","7","8","9"}
IsLevel(s) == \/ Len(s) = 5 /\ SubSeq(s, 1, 3) = <<"M","A","P">> /\ s[4] \in Digits /\ s[5] \in Digits
              \/ /\ Len(s) \in {4, 5} /\ s[1] = "E" /\ s[2] \in Digits \ {"0"} /\ s[3] = "M" /\ s[4] \in Digits
                 /\ (Len(s) = 5 => s[5] \in Digits)
(* lumps a run that rebuilds everything need not read *)
Made == {<<"S","E","G","S">>, <<"S","S","E","C","T","O","R","S">>, <<"N","O","D","E","S">>, <<"R","E","J","E","C","T">>,
         <<"B","L","O","C","K","M","A","P">>}
OfLevel == Made \cup {<<"T","H","I","N","G","S">>, <<"L","I","N","E","D","E","F","S">>, <<"S","I","D","E","D","E","F","S">>,
                      <<"V","E","R","T","E","X","E","S">>, <<"S","E","C","T","O","R","S">>, <<"B","E","H","A","V","I","O","R">>,
                      <<"S","C","R","I","P","T","S">>}
Names(s) == Cardinality({i \in 1..Len(C.ents) : C.ents[i].name = s})
Outside(e) == e.size > 0 /\ (e.pos > C.len \/ e.size > C.len - e.pos)
MustRead(e) == e.name \notin Made /\ (e.name \notin OfLevel \/ Names(e.name) = 1)

(* header, directory, and the entries one after the other *)
Init == c \in 1..Len(Cases) /\ phase = "header" /\ at = 0 /\ verdict = "take" /\ late = FALSE /\ bad = {}
Refuse == verdict' = "refuse" /\ phase' = "judge" /\ UNCHANGED <<at, bad>>
ReadHeader == /\ phase = "header" /\ UNCHANGED late
              /\ IF ~C.file \/ C.len < 12 \/ C.magic \notin {"IWAD", "PWAD"} \/ C.n = 0 THEN Refuse
                 ELSE phase' = "directory" /\ UNCHANGED <<at, verdict, bad>>
ReadDirectory == /\ phase = "directory" /\ UNCHANGED late
                 /\ IF C.dir > C.len \/ C.n > (C.len - C.dir) \div 16 \/ ~\E i \in 1..Len(C.ents) : IsLevel(C.ents[i].name) THEN Refuse
                    ELSE phase' = "entries" /\ verdict' = (IF C.intact THEN "take" ELSE "open") /\ UNCHANGED <<at, bad>>
ReadEntry == /\ phase = "entries" /\ at < Len(C.ents) /\ late' = TRUE
             /\ IF Outside(C.ents[at + 1]) /\ MustRead(C.ents[at + 1]) THEN Refuse
                ELSE at' = at + 1 /\ UNCHANGED <<phase, bad>>
                     /\ verdict' = IF Outside(C.ents[at + 1]) /\ C.ents[at + 1].name \notin Made THEN "open" ELSE verdict
Judge == /\ (phase = "judge" \/ (phase = "entries" /\ at = Len(C.ents)))
         /\ phase' = "done" /\ UNCHANGED <<at, verdict, late>>
         /\ bad' = (IF C.crash THEN {"crash"} ELSE {})
                   \cup (IF C.huge THEN {"memory"} ELSE {})
                   \cup (IF verdict = "refuse" /\ C.exit = 0 THEN {"taken"} ELSE {})
                   \cup (IF verdict = "take" /\ C.exit # 0 THEN {"refused"} ELSE {})
                   \cup (IF C.exit # 0 /\ (C.touched \/ (C.outchanged /\ ~late)) THEN {"touched"} ELSE {})
                   \cup (IF C.exit # 0 /\ ~C.said THEN {"silent"} ELSE {})
Next == UNCHANGED c /\ (ReadHeader \/ ReadDirectory \/ ReadEntry \/ Judge)
Spec == Init /\ [][Next]_vars
Conforms == bad = {} \/ (PrintT(<<"VV-BAD", c, bad, verdict>>) /\ FALSE)
=============================================================================
