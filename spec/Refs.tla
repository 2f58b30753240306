-------------------------------- MODULE Refs --------------------------------
(* Levels as they come: damaged ones, and intact ones nobody would draw.     *)
(* The model goes over the levels of an archive as the builder does and      *)
(* resolves line by line the references to vertices, sides and sectors.  A   *)
(* level of which one leads nowhere can not be built: the run has to end     *)
(* with a refusal that names it, and without a trace on the disk.  A level   *)
(* where all of them resolve has to be built whatever its geometry, and the  *)
(* lumps written must in turn refer only to what is there.  Levels may be    *)
(* gone over in any order, thus any of the damaged ones may be named.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
None == 65535
MaxLines == 65535
VARIABLES c, lev, line, verdict, broken, bad
vars == <<c, lev, line, verdict, broken, bad>>
C == Cases[c]
Building == C.nodes \/ C.blockmap \/ C.reject
Chosen(l) == l.chosen

(* does the reference of one line resolve: vertices first, then sides, then the sectors of these *)
SideOk(l, s) == s = None \/ (s < Len(l.sides) /\ l.sides[s + 1] < l.nsec)
VertsOk(l, r) == r[1] < l.nv /\ r[2] < l.nv
LineOk(l, r) == VertsOk(l, r) /\ SideOk(l, r[3]) /\ SideOk(l, r[4])

Init == c \in 1..Len(Cases) /\ lev = 1 /\ line = 1 /\ verdict = "take" /\ broken = {} /\ bad = {}
(* what follows from a level that can not be built: with everything to be built it must be refused;
   parts that do not need what is missing may get built *)
Break == /\ verdict' = (IF C.nodes THEN "refuse" ELSE IF verdict = "refuse" THEN "refuse" ELSE "open")
         /\ broken' = (IF C.nodes THEN broken \cup {lev} ELSE broken)
Skip == lev <= Len(C.levels) /\ ~C.levels[lev].chosen
        /\ lev' = lev + 1 /\ line' = 1 /\ UNCHANGED <<c, verdict, broken, bad>>
Enter == lev <= Len(C.levels) /\ C.levels[lev].chosen /\ line = 1 /\ ~C.levels[lev].all
         /\ verdict' = (IF verdict = "refuse" THEN verdict ELSE "open") /\ lev' = lev + 1 /\ line' = 1 /\ UNCHANGED <<c, broken, bad>>
TooMany == lev <= Len(C.levels) /\ C.levels[lev].chosen /\ C.levels[lev].all /\ line = 1 /\ C.levels[lev].nlines > MaxLines
           /\ Break /\ lev' = lev + 1 /\ line' = 1 /\ UNCHANGED <<c, bad>>
Resolve == /\ lev <= Len(C.levels) /\ C.levels[lev].chosen /\ C.levels[lev].all
           /\ C.levels[lev].nlines <= MaxLines /\ line <= Len(C.levels[lev].refs)
           /\ line' = line + 1
           /\ IF LineOk(C.levels[lev], C.levels[lev].refs[line]) THEN UNCHANGED <<verdict, broken>> ELSE Break
           /\ UNCHANGED <<c, lev, bad>>
Leave == lev <= Len(C.levels) /\ C.levels[lev].chosen /\ C.levels[lev].all
         /\ C.levels[lev].nlines <= MaxLines /\ line > Len(C.levels[lev].refs)
         /\ lev' = lev + 1 /\ line' = 1 /\ UNCHANGED <<c, verdict, broken, bad>>

(* the level written *)
Whole(l, o) ==
  (IF l.scroll \/ o.lines = l.lines THEN {} ELSE {"lines"})
  \cup (IF \A n \in {"THINGS", "SIDEDEFS", "SECTORS"} : o.kept[n] = l.kept[n] THEN {} ELSE {"kept"})
NodesOk(l, o) ==
  IF o.nd # "" THEN {"nodes-undecodable"}
  ELSE IF o.empty THEN IF l.plain THEN {"nodes-missing"} ELSE {}
  ELSE (IF \A s \in {o.segs[i] : i \in 1..Len(o.segs)} : s[1] < o.nverts /\ s[2] < o.nverts /\ s[3] < o.nlines /\ s[4] \in {0, 1}
             /\ (o.sidesof = <<>> \/ o.sidesof[s[3] + 1][s[4] + 1] # None)
        THEN {} ELSE {"segs"})
       \cup (IF Len(o.leaves) > 0 /\ o.leaves[1][1] = 0
                /\ \A i \in 1..Len(o.leaves) : o.leaves[i][2] > 0 /\
                     o.leaves[i][1] + o.leaves[i][2] = (IF i = Len(o.leaves) THEN o.nsegs ELSE o.leaves[i + 1][1])
             THEN {} ELSE {"leaves"})
       \cup LET Kids == [i \in 1..(2 * Len(o.nodes)) |-> o.nodes[(i + 1) \div 2][((i + 1) % 2) + 1]]
                Sub == {Kids[i][2] : i \in {j \in DOMAIN Kids : Kids[j][1] = 1}}
                Nod == {Kids[i][2] : i \in {j \in DOMAIN Kids : Kids[j][1] = 0}}
            IN IF Len(o.nodes) = 0 THEN IF Len(o.leaves) = 1 THEN {} ELSE {"nodes"}
               ELSE IF Len(o.nodes) = Len(o.leaves) - 1 /\ Sub = 0..(Len(o.leaves) - 1) /\ Nod = 0..(Len(o.nodes) - 2)
                       /\ \A i \in 1..Len(o.nodes), k \in {1, 2} : o.nodes[i][k][1] = 0 =>
                            (IF C.forward THEN i = Len(o.nodes) \/ o.nodes[i][k][2] > i - 1 ELSE o.nodes[i][k][2] < i - 1)
                    THEN {} ELSE {"nodes"}
BlockmapOk(l, o) ==
  IF o.bm # "" THEN {"blockmap-undecodable"}
  ELSE IF o.bmempty THEN IF l.blocks < 20000 /\ ~l.scroll THEN {"blockmap-missing"} ELSE {}
  ELSE IF \A i \in 1..Len(o.bmlines) : o.bmlines[i] < o.nlines \/ o.bmlines[i] = 0 THEN {} ELSE {"blockmap-lines"}
RejectOk(l, o) == IF o.reject = (l.nsec * l.nsec + 7) \div 8 \/ (l.sides = <<>> /\ o.reject = 0) THEN {} ELSE {"reject"}
Same(l, o, names) == IF \A n \in names : o.kept[n] = l.kept[n] THEN {} ELSE {"changed"}
LevelOk(l) ==
  LET o == l.out IN
  IF ~l.chosen THEN Same(l, o, DOMAIN l.kept)
  ELSE IF ~l.all THEN {}
  ELSE IF o.undecoded # "" THEN {"lines-undecodable"}
  ELSE Whole(l, o)
       \cup (IF C.nodes THEN IF l.sides # <<>> /\ l.nsec > 0 THEN NodesOk(l, o) ELSE {}
             ELSE Same(l, o, {"SEGS", "SSECTORS", "NODES", "LINEDEFS", "VERTEXES"}))
       \cup (IF C.blockmap THEN BlockmapOk(l, o) ELSE Same(l, o, {"BLOCKMAP"}))
       \cup (IF C.rejectopen THEN {} ELSE IF C.reject \/ C.rejectzero THEN RejectOk(l, o) ELSE Same(l, o, {"REJECT"}))

Judge == /\ verdict # "done" /\ lev > Len(C.levels)
         /\ verdict' = "done"
         /\ bad' = (IF C.crash THEN {"crash"} ELSE {})
                   \cup (IF C.litter # <<>> THEN {"litter"} ELSE {})
                   \cup (IF verdict = "refuse" /\ C.exit = 0 THEN {"taken"} ELSE {})
                   \cup (IF verdict = "take" /\ C.exit # 0 THEN {"refused"} ELSE {})
                   \cup (IF C.exit # 0 /\ ~C.inputsame THEN {"touched"} ELSE {})
                   \cup (IF verdict = "refuse" /\ C.exit # 0 /\ ~C.crash /\ \A i \in broken : ~C.levels[i].named THEN {"unnamed"} ELSE {})
                   \cup (IF C.exit = 0 /\ ~C.decoded THEN {"undecodable"} ELSE {})
                   \cup (IF C.exit = 0 /\ C.decoded /\ C.wantout /\ ~C.inputsame THEN {"touched"} ELSE {})
                   \cup (IF C.exit = 0 /\ C.decoded /\ verdict = "take"
                         THEN UNION {LevelOk(C.levels[i]) : i \in 1..Len(C.levels)} ELSE {})
         /\ UNCHANGED <<c, lev, line, broken>>
Next == Skip \/ Enter \/ TooMany \/ Resolve \/ Leave \/ Judge
Spec == Init /\ [][Next]_vars
Conforms == bad = {} \/ (PrintT(<<"VV-BAD", c, bad, broken>>) /\ FALSE)
=============================================================================
