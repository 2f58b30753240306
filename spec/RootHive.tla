------------------------------ MODULE RootHive ------------------------------
(* Multi-tree mode.  The hive hands out candidates for the root to workers,  *)
(* takes the trees back in whatever order they get ready, and keeps the best *)
(* one.  A case is a run as recorded: the order in which the trees arrived,  *)
(* what was written in the end, and for each of the candidates the tree that *)
(* comes of it alone.  What is good about a tree is measured here, on the    *)
(* tree itself, and not taken from the program.                              *)
(* Candidates are one line of each group of collinear lines of the kind      *)
(* asked for; the groups are found here from the lines of the level.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, run, i, best, metric, seen, order, bad
vars == <<c, run, i, best, metric, seen, order, bad>>
C == Cases[c]
K == Len(C.trees)
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b

(* height of a subtree: 0 of a leaf next to the root, else levels with leaves counted as one *)
Tall(t) ==
  LET n == Len(t.nodes)
      H[k \in 1..n] == Max(IF t.nodes[k][1][1] = 1 THEN 1 ELSE H[t.nodes[k][1][2] + 1] + 1,
                           IF t.nodes[k][2][1] = 1 THEN 1 ELSE H[t.nodes[k][2][2] + 1] + 1)
      Side(s) == IF t.nodes[n][s][1] = 1 THEN 0 ELSE H[t.nodes[n][s][2] + 1] + 1
  IN <<Side(1), Side(2)>>
(* what the formats hold: numbers of leaves have 15 bits, those of vertices and of the first segs of runs
   16 or, for the original engine, 15; the longest run of segs may be put last *)
Fits(t) == t.leaves <= 32767 /\ t.nverts <= 65536 /\ t.nsegs - t.longest <= 65535
FitsSigned(t) == t.leaves <= 32767 /\ t.nverts <= 32768 /\ t.nsegs - t.longest <= 32767
Misfit(t) == CASE C.fit = "v" -> IF FitsSigned(t) THEN 0 ELSE IF Fits(t) THEN 1 ELSE 2
               [] C.fit = "u" -> IF Fits(t) THEN 0 ELSE 1
               [] OTHER -> 0
Metric(t) ==
  LET h == IF t.nodes = <<>> THEN t.heights ELSE Tall(t)
      l == h[1]
      r == h[2]
  IN [misfit |-> Misfit(t), precious |-> IF \E x \in 1..Len(t.precious) : t.precious[x] > 1 THEN 1 ELSE 0,
      leaves |-> t.leaves, diff |-> Abs(l - r), height |-> Max(l, r), segs |-> t.nsegs]
Better(a, b, ia, ib) ==
  IF a.misfit # b.misfit THEN a.misfit < b.misfit
  ELSE IF a.precious # b.precious THEN a.precious < b.precious
  ELSE IF a.leaves # b.leaves THEN a.leaves < b.leaves
  ELSE IF a.diff # b.diff THEN a.diff < b.diff
  ELSE IF a.height # b.height THEN a.height < b.height
  ELSE IF a.segs # b.segs THEN a.segs < b.segs
  ELSE ia < ib

(* the groups of lines: a line of the level is [x1, y1, x2, y2, sides with segs] *)
Cross(ax, ay, bx, by) == ax * by - ay * bx
Collinear(p, q) == /\ Cross(p[3] - p[1], p[4] - p[2], q[1] - p[1], q[2] - p[2]) = 0
                   /\ Cross(p[3] - p[1], p[4] - p[2], q[3] - p[1], q[4] - p[2]) = 0
Wanted(l) == CASE C.mode = 1 -> l[5] = 1 [] C.mode = 2 -> l[5] = 2 [] OTHER -> l[5] > 0
Lines == IF \E k \in 1..Len(C.lines) : Wanted(C.lines[k]) THEN {k \in 1..Len(C.lines) : Wanted(C.lines[k])}
         ELSE {k \in 1..Len(C.lines) : C.lines[k][5] > 0}
GroupOf(t) == {k \in Lines : Collinear(C.lines[k], t.root)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

Init == /\ c \in 1..Len(Cases) /\ run = 1 /\ i = 1 /\ best = 0 /\ seen = {} /\ bad = {}
        /\ metric = [k \in 1..K |-> Metric(C.trees[k])]
        /\ order = IF C.chosen THEN [k \in 1..K |-> k]
                   ELSE [k \in 1..K |-> LET g == GroupOf(C.trees[k]) IN IF g = {} THEN 0 ELSE Least(g)]
(* the tree of a candidate arrives *)
Arrive == /\ run <= Len(C.runs) /\ i <= Len(C.runs[run].arrivals)
          /\ LET k == C.runs[run].arrivals[i] + 1 IN
             IF k > K \/ k \in seen THEN bad' = bad \cup {"twice"} /\ UNCHANGED <<best, seen>>
             ELSE /\ seen' = seen \cup {k}
                  /\ best' = (IF best = 0 \/ Better(metric[k], metric[best], order[k], order[best]) THEN k ELSE best)
                  /\ bad' = bad
          /\ i' = i + 1 /\ UNCHANGED <<c, run, metric, order>>
(* all have, and the best one is written *)
Settle == /\ run <= Len(C.runs) /\ i > Len(C.runs[run].arrivals)
          /\ bad' = bad \cup (IF seen = 1..K THEN {} ELSE {"missing"})
                        \cup (IF best # 0 /\ C.runs[run].written # C.trees[best].digest
                              THEN {<<"notbest", best, {k \in 1..K : C.trees[k].digest = C.runs[run].written}>>} ELSE {})
                        \cup (IF run = 1 /\ ~C.chosen /\ \E k \in Lines : \A t \in 1..K : k \notin GroupOf(C.trees[t])
                              THEN {<<"untried", {k \in Lines : \A t \in 1..K : k \notin GroupOf(C.trees[t])}>>} ELSE {})
                        \cup (IF run = 1 /\ ~C.chosen /\ \E k \in 1..K : order[k] = 0 THEN {"stranger"} ELSE {})
          /\ run' = run + 1 /\ i' = 1 /\ best' = 0 /\ seen' = {} /\ UNCHANGED <<c, metric, order>>
Next == Arrive \/ Settle
Spec == Init /\ [][Next]_vars
Conforms == run <= Len(C.runs) \/ bad = {} \/ (PrintT(<<"VV-BAD", c, bad>>) /\ FALSE)
=============================================================================
