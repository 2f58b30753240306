-------------------------------- MODULE Bsp --------------------------------
(* The consumer of SEGS / SSECTORS / NODES (in any of their formats, decoded  *)
(* into one shape) and of the vertices and lines that go with them:           *)
(*                                                                            *)
(*   walk   a game engine's recursive descent over the whole tree, with an    *)
(*          explicit stack.  Every stack entry carries what its ancestors     *)
(*          promised about it: the box it must lie in and the side of each    *)
(*          partition line it must lie on                                     *)
(*   lines  for every side of every line, the segs that render it, followed   *)
(*          end to end from one vertex of the line to the other               *)
(*   verts  the lines and vertices as written, against the ones read          *)
(*   points descents for single points: R_PointInSubsector, step by step      *)
(*                                                                            *)
(* Coordinates are in 1/sc map units.  Angles are BAM (0..65535).             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, phase, stack, seenN, seenS, seenG, k, at, used, bad
vars == <<c, phase, stack, seenN, seenS, seenG, k, at, used, bad>>

C  == Cases[c]
ND == C.nodes
SS == C.ss
SG == C.segs
VX == C.verts
LN == C.lines
PT == C.points
sc == C.sc
NN == Len(ND)
NS == Len(SS)
NG == Len(SG)
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
SetOf(s) == {s[i] : i \in 1..Len(s)}

Big == 1000000
World == <<Big, -Big, -Big, Big>>                    \* top bottom left right
Cut(a, b) == <<Min(a[1], b[1]), Max(a[2], b[2]), Max(a[3], b[3]), Min(a[4], b[4])>>

(* cross product of a node's partition with a point: positive on the right    *)
Side(n, x, y) == (x - sc * ND[n].x) * ND[n].dy - (y - sc * ND[n].y) * ND[n].dx
Slope(n) == Abs(ND[n].dx) + Abs(ND[n].dy)

Vert(i) == VX[i + 1]                                 \* x, y, and a name for the exact place
Spot(i) == VX[i + 1][3]
HasVert(i) == i >= 0 /\ i < Len(VX)

(* what makes further reading pointless                                       *)
Broken == \E x \in bad : x[1] \in {"childrange", "revisited", "runrange", "novertex"}
Enough == Broken \/ Cardinality(bad) > 12

(* no nodes at all: engines go straight to subsector 0                        *)
Root == <<IF NN = 0 THEN 1 ELSE 0, IF NN = 0 THEN 0 ELSE NN - 1, World, <<>>>>                   \* kind (1 subsector), number, box, sides

Init == /\ c \in 1..Len(Cases)
        /\ phase = "walk" /\ stack = <<Root>> /\ seenN = {} /\ seenS = {} /\ seenG = {}
        /\ k = 1 /\ at = <<0, 0>> /\ used = {} /\ bad = {}

(* ---- walk ------------------------------------------------------------------ *)
Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)

VisitNode ==
  LET n == Top[2] + 1
      nd == ND[n]
  IN  IF Top[2] < 0 \/ Top[2] >= NN
        THEN /\ bad' = bad \cup {<<"childrange", 0, Top[2]>>} /\ stack' = Rest /\ UNCHANGED seenN
      ELSE IF Top[2] \in seenN
        THEN /\ bad' = bad \cup {<<"revisited", 0, Top[2]>>} /\ stack' = Rest /\ UNCHANGED seenN
      ELSE /\ seenN' = seenN \cup {Top[2]}
           /\ bad' = IF nd.dx = 0 /\ nd.dy = 0 THEN bad \cup {<<"nodirection", Top[2]>>} ELSE bad
           /\ stack' = Rest \o <<<<nd.l[1], nd.l[2], Cut(Top[3], nd.bl), Append(Top[4], <<n, -1>>)>>,
                                 <<nd.r[1], nd.r[2], Cut(Top[3], nd.br), Append(Top[4], <<n, 1>>)>>>>

SegBad(g, box, sides) ==
  LET s == SG[g + 1] IN
  IF ~HasVert(s.a) \/ ~HasVert(s.b) THEN {<<"novertex", g>>}
  ELSE LET p == Vert(s.a)
           q == Vert(s.b)
           X == {p[1], q[1]}
           Y == {p[2], q[2]}
       IN  (IF p[3] = q[3] THEN {<<"zerolength", g>>} ELSE {})
           \cup (IF \E y \in Y : y > sc * box[1] \/ y < sc * box[2] THEN {<<"outsidebox", g, box>>} ELSE {})
           \cup (IF \E x \in X : x < sc * box[3] \/ x > sc * box[4] THEN {<<"outsidebox", g, box>>} ELSE {})
           \cup {<<"wrongside", g, sides[i][1] - 1>> : i \in {i \in 1..Len(sides) :
                   LET n == sides[i][1]  d == sides[i][2] IN
                   \/ d * Side(n, p[1], p[2]) < -(C.tol * Slope(n))
                   \/ d * Side(n, q[1], q[2]) < -(C.tol * Slope(n))}}

VisitLeaf ==
  LET m == Top[2]
      r == SS[m + 1]
      run == r[1]..(r[1] + r[2] - 1)
      secs == {SG[g + 1].sec : g \in run}
  IN  /\ stack' = Rest
      /\ IF m < 0 \/ m >= NS
           THEN bad' = bad \cup {<<"childrange", 1, m>>} /\ UNCHANGED <<seenS, seenG>>
         ELSE IF m \in seenS
           THEN bad' = bad \cup {<<"revisited", 1, m>>} /\ UNCHANGED <<seenS, seenG>>
         ELSE IF r[2] <= 0
           THEN bad' = bad \cup {<<"emptyrun", m>>} /\ seenS' = seenS \cup {m} /\ UNCHANGED seenG
         ELSE IF r[1] < 0 \/ r[1] + r[2] > NG
           THEN bad' = bad \cup {<<"runrange", m, r>>} /\ seenS' = seenS \cup {m} /\ UNCHANGED seenG
         ELSE /\ bad' = bad \cup UNION {SegBad(g, Top[3], Top[4]) : g \in run}
                            \cup (IF run \cap seenG # {} THEN {<<"sharedsegs", m>>} ELSE {})
                            \cup (IF Cardinality({x \in secs : x >= 0}) > 1 /\ ~C.coalesce THEN {<<"mixedsectors", m, secs>>} ELSE {})
              /\ seenS' = seenS \cup {m}
              /\ seenG' = seenG \cup run

Walk == /\ phase = "walk" /\ stack # <<>>
        /\ \/ Top[1] = 0 /\ VisitNode /\ UNCHANGED <<seenS, seenG>>
           \/ Top[1] = 1 /\ VisitLeaf /\ UNCHANGED seenN
        /\ UNCHANGED <<c, phase, k, at, used>>

Walked == /\ phase = "walk" /\ stack = <<>>
          /\ bad' = bad \cup (IF Cardinality(seenN) # NN THEN {<<"unreached", 0, NN - Cardinality(seenN)>>} ELSE {})
                        \cup (IF Cardinality(seenS) # NS THEN {<<"unreached", 1, NS - Cardinality(seenS)>>} ELSE {})
                        \cup (IF Cardinality(seenG) # NG THEN {<<"orphansegs", NG - Cardinality(seenG)>>} ELSE {})
          /\ phase' = "lines" /\ k' = 1 /\ at' = <<0, 0>>
          /\ UNCHANGED <<c, stack, seenN, seenS, seenG, used>>

(* ---- lines ------------------------------------------------------------------ *)
(* k numbers the sides: line (k-1) \div 2, side (k-1) % 2.  at[1] is 0 until the *)
(* chain is begun, then 1 + the number of the vertex reached                     *)
Ln == LN[(k - 1) \div 2 + 1]
Sd == (k - 1) % 2
From == IF Sd = 0 THEN Ln.a ELSE Ln.b
To   == IF Sd = 0 THEN Ln.b ELSE Ln.a
Degenerate == Spot(Ln.a) = Spot(Ln.b)
(* a sector that exists on both sides of all its lines, with a clean closed outline *)
Selfref(s) == \A i \in 1..Len(LN) : (LN[i].f = s \/ LN[i].bk = s) => LN[i].f = LN[i].bk
Outline(s) == LET K == {i \in 1..Len(LN) : LN[i].f = s}
                  P == UNION {{LN[i].a, LN[i].b} : i \in K}
              IN  \A p \in P : Cardinality({i \in K : p \in {LN[i].a, LN[i].b}}) = 2
(* must a seg be made for this side?  "maybe" when culling leaves a choice      *)
Wanted ==
  IF Degenerate \/ Ln.dummy THEN "no"
  ELSE IF Sd = 0 /\ (Ln.f < 0 \/ Ln.nf) THEN "no"
  ELSE IF Sd = 1 /\ (Ln.bk < 0 \/ Ln.nb) THEN "no"
  ELSE IF C.special /\ (Ln.tag = 998 \/ Ln.act = 1086 \/ (Ln.act = 1085 /\ Sd = 0) \/ (Ln.act = 1084 /\ Sd = 1)) THEN "no"
  ELSE IF C.cull /\ Ln.f = Ln.bk /\ Ln.plain /\ ~(Selfref(Ln.f) /\ Outline(Ln.f)) THEN "maybe"
  ELSE "yes"

Deg(a, b) == LET d == (a - b) % 65536 IN Min(d, 65536 - d)
(* the extra angle this side's segs are given                                   *)
Fixed == C.special /\ Ln.act \in {1081, 1083}
Rot == IF ~C.special THEN 0
       ELSE IF Ln.act = 1080 THEN (Ln.tag * 65536) \div 360
       ELSE IF Ln.act = 1082 THEN Ln.tag
       ELSE IF Ln.act = 1081 THEN (Ln.tag * 65536) \div 360
       ELSE IF Ln.act = 1083 THEN Ln.tag
       ELSE 0
Horizon == IF C.special /\ Ln.tag = 999 /\ Ln.bk < 0 THEN (Ln.xo * 65536) \div 360 ELSE 0
AngleBad(g) ==
  LET s == SG[g + 1]
      want == {(IF Fixed THEN 0 ELSE b) + Rot + Horizon : b \in {s.dir, IF Sd = 0 THEN Ln.dir ELSE Ln.dir + 32768}}
  IN  C.angles /\ \A w \in want : Deg(s.ang, w) > 2

(* distance from the line, direction along the line, distance from its start    *)
P0 == Vert(From)
P1 == Vert(To)
DX == P1[1] - P0[1]
DY == P1[2] - P0[2]
OffBad(g) ==
  LET s == SG[g + 1]
      p == Vert(s.a)
      d2 == (p[1] - P0[1]) * (p[1] - P0[1]) + (p[2] - P0[2]) * (p[2] - P0[2])
      lo == Max(0, sc * s.off - sc - C.tol)
      hi == sc * s.off + sc + C.tol
  IN  C.angles /\ (d2 < lo * lo \/ d2 > hi * hi)
Away(v) == Abs((Vert(v)[1] - P0[1]) * DY - (Vert(v)[2] - P0[2]) * DX) > C.tol * (Abs(DX) + Abs(DY))
Along(g) == LET s == SG[g + 1] IN (Vert(s.b)[1] - Vert(s.a)[1]) * DX + (Vert(s.b)[2] - Vert(s.a)[2]) * DY

Mine == {g \in 0..(NG - 1) : SG[g + 1].line = (k - 1) \div 2 /\ SG[g + 1].side = Sd}
Here == {g \in Mine \ used : Spot(SG[g + 1].a) = Spot(at[1] - 1)}
NextSide(cs) == /\ bad' = bad \cup cs /\ k' = k + 1 /\ at' = <<0, 0>> /\ used' = {}
                /\ UNCHANGED <<c, phase, stack, seenN, seenS, seenG>>
K0 == (k - 1) \div 2

Chain == /\ phase = "lines" /\ k <= 2 * Len(LN) /\ ~Enough
         /\ IF at[1] = 0
              THEN LET M == Mine
                       all == \A g \in M : HasVert(SG[g + 1].a) /\ HasVert(SG[g + 1].b) IN
                   IF Wanted = "no"
                     THEN NextSide(IF M = {} THEN {} ELSE {<<"unwanted", K0, Sd>>})
                   ELSE IF M = {}
                     THEN NextSide(IF Wanted = "maybe" THEN {} ELSE {<<"unrendered", K0, Sd>>})
                   ELSE IF ~all THEN NextSide({<<"novertex", K0, Sd>>})
                   ELSE /\ at' = <<From + 1, 0>>
                        /\ UNCHANGED <<c, phase, stack, seenN, seenS, seenG, k, used, bad>>
            ELSE IF Spot(at[1] - 1) = Spot(To)
              THEN NextSide(IF Mine \ used # {} THEN {<<"overlap", K0, Sd, Mine \ used>>} ELSE {})
            ELSE IF Here = {}
              THEN NextSide({<<"gap", K0, Sd, at[1] - 1>>})
            ELSE LET g == CHOOSE g \in Here : TRUE
                     s == SG[g + 1]
                     cs == (IF Away(s.b) THEN {<<"offline", K0, Sd, g>>} ELSE {})
                           \cup (IF Along(g) < 0 \/ (Along(g) = 0 /\ SubSeq(Vert(s.a), 1, 2) # SubSeq(Vert(s.b), 1, 2)) THEN {<<"backward", K0, Sd, g>>} ELSE {})
                           \cup (IF AngleBad(g) THEN {<<"angle", K0, Sd, s.ang, s.dir>>} ELSE {})
                           \cup (IF OffBad(g) THEN {<<"segoffset", K0, Sd, s.off>>} ELSE {})
                 IN  IF cs # {} THEN NextSide(cs)
                     ELSE /\ at' = <<s.b + 1, 0>> /\ used' = used \cup {g}
                          /\ UNCHANGED <<c, phase, stack, seenN, seenS, seenG, k, bad>>

(* ---- lines and vertices as written ------------------------------------------- *)
InL == C.inlines
Pairs == UNION {{<<InL[i].a, LN[i].a>>, <<InL[i].b, LN[i].b>>} : i \in 1..Min(Len(InL), Len(LN))}
VertsBad ==
  (IF Len(LN) # Len(InL) THEN {<<"linecount", Len(InL), Len(LN)>>} ELSE {})
  \cup UNION {(IF ~HasVert(LN[i].a) \/ ~HasVert(LN[i].b) THEN {<<"novertex", "line", i - 1>>}
               ELSE IF SubSeq(Vert(LN[i].a), 1, 2) # <<InL[i].x1, InL[i].y1>> \/ SubSeq(Vert(LN[i].b), 1, 2) # <<InL[i].x2, InL[i].y2>> THEN {<<"moved", i - 1>>}
               ELSE {})
              \cup (IF LN[i].rest # InL[i].rest THEN {<<"linechanged", i - 1>>} ELSE {}) : i \in 1..Min(Len(InL), Len(LN))}
  \cup (IF \E p \in Pairs : \E q \in Pairs : (p[1] = q[1]) # (p[2] = q[2]) THEN {<<"reattached">>} ELSE {})
  \cup (LET live == UNION {{LN[i].a, LN[i].b} : i \in 1..Len(LN)} \cup UNION {{SG[i].a, SG[i].b} : i \in 1..NG}
        IN  IF \E v \in 0..(C.nfile - 1) : v \notin live THEN {<<"deadvertex", {v \in 0..(C.nfile - 1) : v \notin live}>>} ELSE {})
Verts == /\ phase = "lines" /\ (k > 2 * Len(LN) \/ Enough)
         /\ bad' = bad \cup (IF Enough THEN {} ELSE VertsBad)
         /\ phase' = "points" /\ k' = 1 /\ at' = <<Root[1], Root[2]>>
         /\ UNCHANGED <<c, stack, seenN, seenS, seenG, used>>

(* ---- points -------------------------------------------------------------------- *)
(* a game engine goes to the right child when the cross product is positive         *)
Descend == /\ phase = "points" /\ ~Enough /\ k <= Len(PT) /\ at[1] = 0
           /\ at' = IF Side(at[2] + 1, PT[k][1], PT[k][2]) > 0 THEN ND[at[2] + 1].r ELSE ND[at[2] + 1].l
           /\ UNCHANGED <<c, phase, stack, seenN, seenS, seenG, k, used, bad>>

Behind(g, x, y) == LET l == LN[SG[g + 1].line + 1]
                       p == Vert(IF SG[g + 1].side = 0 THEN l.a ELSE l.b)
                       q == Vert(IF SG[g + 1].side = 0 THEN l.b ELSE l.a)
                       cr == (x - p[1]) * (q[2] - p[2]) - (y - p[2]) * (q[1] - p[1])
                   IN  cr < -(C.tol * (Abs(q[1] - p[1]) + Abs(q[2] - p[2])))
(* a line drawn inside one sector may lie inside a leaf, both sides of it           *)
Within(g, run) == \E h \in run : SG[h + 1].line = SG[g + 1].line /\ SG[h + 1].side # SG[g + 1].side
                                 /\ SG[h + 1].sec = SG[g + 1].sec
Arrive == /\ phase = "points" /\ ~Enough /\ k <= Len(PT) /\ at[1] = 1
          /\ LET r == SS[at[2] + 1]
                 run == r[1]..(r[1] + r[2] - 1)
                 p == PT[k]
             IN  bad' = bad \cup (IF \E g \in run : SG[g + 1].sec # p[3] THEN {<<"wrongsector", p, at[2], {SG[g + 1].sec : g \in run}>>} ELSE {})
                            \cup (IF C.strict /\ \E g \in run : Behind(g, p[1], p[2]) /\ ~Within(g, run) THEN {<<"behind", p, at[2]>>} ELSE {})
          /\ k' = k + 1 /\ at' = <<Root[1], Root[2]>>
          /\ UNCHANGED <<c, phase, stack, seenN, seenS, seenG, used>>

Finish == /\ phase = "points" /\ (k > Len(PT) \/ Enough)
          /\ phase' = "done"
          /\ UNCHANGED <<c, stack, seenN, seenS, seenG, k, at, used, bad>>

Next == Walk \/ Walked \/ Chain \/ Verts \/ Descend \/ Arrive \/ Finish
Spec == Init /\ [][Next]_vars

Conforms == phase = "done" => (bad = {} \/ (PrintT(<<"VV-BAD", c, bad>>) /\ FALSE))
=============================================================================
