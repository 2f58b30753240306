------------------------------- MODULE Scroll -------------------------------
(* Scrolling walls.  A wall is a line with action 48, or the line that a     *)
(* remote scroller (action 1048) points at: the nearest one carrying the     *)
(* same tag.  A wall scrolls as fast as there are lines with action 48 on    *)
(* top of it, so the builder keeps copies next to the wall; the copies are   *)
(* not part of the map that is drawn or bumped into.                         *)
(*                                                                           *)
(* The machine reads the lines as given (grouping them into walls and        *)
(* copies), then the lines as written, one at a time.  C.mode is "match"     *)
(* (the number of copies is brought in line with the speed), "keep" (lines   *)
(* stay as they are, copies are recognised) or "off" (nothing is special).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, phase, i, walls, copies, j, got, marks, bad
vars == <<c, phase, i, walls, copies, j, got, marks, bad>>

C  == Cases[c]
In == C.inp            \* [a b fs bs act tag fl sx sy]  a b: vertex numbers, sx sy: start point
Out == C.out
N  == Len(In)
M  == Len(Out)
Key(l) == <<l.a, l.b, l.fs>>
Dist2(p, q) == (p.sx - q.sx) * (p.sx - q.sx) + (p.sy - q.sy) * (p.sy - q.sy)
Targets(k) == {t \in 1..N : t # k /\ In[t].tag = In[k].tag}
Nearest(k) == CHOOSE t \in Targets(k) : \A u \in Targets(k) : \/ Dist2(In[k], In[t]) < Dist2(In[k], In[u])
                                                              \/ Dist2(In[k], In[t]) = Dist2(In[k], In[u]) /\ t <= u

(* walls: key -> [line, own speed, remote speed]                                *)
Init == /\ c \in 1..Len(Cases) /\ phase = (IF Cases[c].mode = "off" THEN "copy" ELSE "remote")
        /\ i = 1 /\ walls = <<>> /\ copies = {} /\ j = 1 /\ got = <<>> /\ marks = {} /\ bad = {}

Wall(key) == {w \in 1..Len(walls) : walls[w].key = key}

(* remote scrollers first: they decide which line is the wall of its group      *)
Remote == /\ phase = "remote" /\ i <= N
          /\ IF In[i].act = 1048 /\ In[i].tag > 0 /\ Targets(i) # {}
               THEN LET t == Nearest(i)
                        key == Key(In[t])
                        sp == In[i].tag % 100
                    IN  IF Wall(key) = {}
                          THEN walls' = Append(walls, [key |-> key, line |-> t, own |-> IF In[t].act = 48 THEN In[t].tag ELSE -1,
                                                       rem |-> sp, far |-> TRUE, bs |-> In[t].bs])
                          ELSE walls' = [w \in DOMAIN walls |-> IF walls[w].key = key THEN [walls[w] EXCEPT !.rem = @ + sp] ELSE walls[w]]
               ELSE UNCHANGED walls
          /\ i' = i + 1 /\ UNCHANGED <<c, phase, copies, j, got, marks, bad>>
Remoted == /\ phase = "remote" /\ i > N /\ phase' = "direct" /\ i' = 1
           /\ UNCHANGED <<c, walls, copies, j, got, marks, bad>>
Direct == /\ phase = "direct" /\ i <= N
          /\ IF In[i].act # 48 THEN UNCHANGED <<walls, copies>>
             ELSE LET key == Key(In[i]) IN
                  IF Wall(key) = {}
                    THEN /\ walls' = Append(walls, [key |-> key, line |-> i, own |-> In[i].tag, rem |-> 0, far |-> FALSE, bs |-> In[i].bs])
                         /\ UNCHANGED copies
                  ELSE IF \E w \in Wall(key) : walls[w].line = i THEN UNCHANGED <<walls, copies>>
                  ELSE copies' = copies \cup {i} /\ UNCHANGED walls
          /\ i' = i + 1 /\ UNCHANGED <<c, phase, j, got, marks, bad>>
Directed == /\ phase = "direct" /\ i > N /\ phase' = "copy" /\ i' = 1
            /\ got' = [w \in 1..Len(walls) |-> 0]
            /\ UNCHANGED <<c, walls, copies, j, marks, bad>>

(* lines as written.  Out[j].a/.b are numbered as in the input                  *)
Same(p, q) == p.a = q.a /\ p.b = q.b /\ p.fs = q.fs /\ p.bs = q.bs /\ p.act = q.act /\ p.tag = q.tag /\ p.fl = q.fl
IsCopy(l) == l.act = 48 /\ Wall(Key(l)) # {}
Skip == /\ phase = "copy" /\ C.mode = "match" /\ i \in copies /\ i' = i + 1 /\ UNCHANGED <<c, phase, walls, copies, j, got, marks, bad>>
(* the next line as given, unless it is a copy                                  *)
Keep == /\ phase = "copy" /\ j <= M /\ ~(C.mode = "match" /\ i \in copies)
        /\ i <= N /\ Same(In[i], Out[j])
        /\ i' = i + 1 /\ j' = j + 1
        /\ UNCHANGED <<c, phase, walls, copies, got, marks, bad>>
(* where copies are not matched they stay in place (their tag means nothing)    *)
KeepCopy == /\ phase = "copy" /\ j <= M /\ C.mode = "keep" /\ i \in copies /\ ~Same(In[i], Out[j])
            /\ Same([In[i] EXCEPT !.tag = 0], Out[j])
            /\ i' = i + 1 /\ j' = j + 1
            /\ UNCHANGED <<c, phase, walls, copies, got, marks, bad>>
Copied == /\ phase = "copy" /\ j <= M /\ C.mode = "match" /\ (IF i > N THEN TRUE ELSE i \notin copies /\ ~Same(In[i], Out[j]))
          /\ LET l == Out[j] IN
             IF IsCopy(l) /\ l.bs = walls[CHOOSE w \in Wall(Key(l)) : TRUE].bs
               THEN /\ got' = [w \in DOMAIN got |-> IF walls[w].key = Key(l) THEN got[w] + 1 ELSE got[w]]
                    /\ marks' = marks \cup {j}
                    /\ bad' = IF l.tag # 0 THEN bad \cup {<<"copytag", j - 1, l.tag>>} ELSE bad
                    /\ j' = j + 1 /\ UNCHANGED phase
               ELSE /\ bad' = bad \cup {<<"lines", i - 1, j - 1>>} /\ phase' = "done"
                    /\ UNCHANGED <<got, marks, j>>
          /\ UNCHANGED <<c, i, walls, copies>>
Stray == /\ phase = "copy" /\ j <= M /\ C.mode # "match"
         /\ (IF i > N THEN TRUE
             ELSE ~Same(In[i], Out[j]) /\ ~(C.mode = "keep" /\ i \in copies /\ Same([In[i] EXCEPT !.tag = 0], Out[j])))
         /\ bad' = bad \cup {<<"lines", i - 1, j - 1>>} /\ phase' = "done"
         /\ UNCHANGED <<c, i, walls, copies, j, got, marks>>

Power(w) == LET p == (IF w.own > 0 THEN w.own ELSE 0) + w.rem IN IF p = 0 THEN 1 ELSE p
(* speed and remote speed on one wall: the manual does not say how they combine *)
CountBad(w) == /\ ~(walls[w].own > 0 /\ walls[w].far)
               /\ got[w] + (IF walls[w].own >= 0 THEN 1 ELSE 0) # Power(walls[w])
(* all lines written: copies not to be dropped are still due                     *)
End == /\ phase = "copy" /\ j > M /\ ~(C.mode = "match" /\ i \in copies)
       /\ bad' = bad \cup (IF i <= N THEN {<<"lines", i - 1, M>>} ELSE {})
                     \cup (IF C.mode = "match" THEN {<<"speed", walls[w].line - 1, got[w], Power(walls[w])>> : w \in {w \in 1..Len(walls) : CountBad(w)}} ELSE {})
       /\ phase' = "done"
       /\ marks' = IF C.mode = "keep" THEN copies ELSE marks
       /\ UNCHANGED <<c, i, walls, copies, j, got>>
Report == /\ phase = "done" /\ phase' = "over"
          /\ PrintT(<<"VV-MARKS", c, marks, copies, bad>>)
          /\ UNCHANGED <<c, i, walls, copies, j, got, marks, bad>>
Next == Remote \/ Remoted \/ Direct \/ Directed \/ Skip \/ Keep \/ KeepCopy \/ Copied \/ Stray \/ End \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
