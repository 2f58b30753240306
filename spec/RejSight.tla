------------------------------ MODULE RejSight ------------------------------
(* Sight between sectors, and the reject table that speaks about it.         *)
(*                                                                           *)
(* A line lets sight pass when it is flagged two-sided and has both sides;   *)
(* every other line is opaque.  A ray is a segment between two points of the *)
(* plane that touches no end of a line and meets only passable lines.  A beam *)
(* is a strip of such rays, a unit wide (what is narrower than that gets lost *)
(* in integer arithmetic); all the sectors it goes through see each other.  A grazing line is an       *)
(* infinite line through two vertices: it may touch walls, but must not      *)
(* cross one on the way.  When no grazing line joins the openings of two     *)
(* sectors, no ray does either.                                              *)
(*                                                                           *)
(* The machine reads the map line by line (joining sectors into parts), then *)
(* follows every ray, then looks at every pair of the table.                 *)
(*                                                                           *)
(* Case: n sectors; lines <<x1,y1,x2,y2,kind,front,back>> (kind 0 opaque, 1  *)
(* passable; 0-based sectors, -1 none); beams rays, scale unit; tab the table  *)
(* by rows (1 hidden), alt the tables of the other variants; bytes, want:    *)
(* size of the lump and size expected; sly: sectors of which a line has the  *)
(* sector on both sides, and that are to be seen by everyone (mode s=0);     *)
(* graze[i][j] for i > j: the grazing                                        *)
(* line <<px,py,qx,qy,a,b>> (a, b: numbers of the openings that it   *)
(* joins), or <<>> when there is none; judge: grazing lines were looked for. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, phase, k, part, lit, bad
vars == <<c, phase, k, part, lit, bad>>

C == Cases[c]
L == C.lines
Sectors == 0..(C.n - 1)
Hidden(a, b) == C.tab[a + 1][b + 1] = 1
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
(* on which side of the line o -> p is q                                     *)
Side(ox, oy, px, py, qx, qy) == Sgn((px - ox) * (qy - oy) - (py - oy) * (qx - ox))

Init == /\ c \in 1..Len(Cases) /\ phase = "read" /\ k = 1
        /\ part = [s \in 0..(Cases[c].n - 1) |-> s] /\ lit = {} /\ bad = {}

Opening(i) == L[i][5] = 1 /\ L[i][6] # L[i][7]

Read == /\ phase = "read" /\ k <= Len(L)
        /\ LET f == L[k][6]  b == L[k][7] IN
           IF L[k][5] = 1 /\ part[f] # part[b]
             THEN part' = [s \in DOMAIN part |-> IF part[s] = part[f] THEN part[b] ELSE part[s]]
             ELSE UNCHANGED part
        /\ k' = k + 1 /\ UNCHANGED <<c, phase, lit, bad>>
ReadDone == /\ phase = "read" /\ k > Len(L) /\ phase' = "rays" /\ k' = 1
            /\ bad' = bad \cup (IF C.bytes # C.want THEN {<<"size", C.bytes, C.want>>} ELSE {})
            /\ UNCHANGED <<c, part, lit>>

(* 0: the ray misses the line, 1: it passes through it, 2: it is stopped or touches *)
Meets(r, l) ==
  LET s1 == Side(r[1], r[2], r[3], r[4], l[1], l[2])
      s2 == Side(r[1], r[2], r[3], r[4], l[3], l[4])
  IN IF s1 * s2 = 1 THEN 0
     ELSE LET t1 == Side(l[1], l[2], l[3], l[4], r[1], r[2])
              t2 == Side(l[1], l[2], l[3], l[4], r[3], r[4])
          IN IF t1 * t2 = 1 THEN 0
             ELSE IF s1 = 0 \/ s2 = 0 \/ t1 = 0 \/ t2 = 0 \/ l[5] = 0 THEN 2 ELSE 1

(* a beam <<px,py,qx,qy,wx,wy>>: the parallelogram p, q, q+w, p+w.  It is at *)
(* least a unit wide, no end of an opaque line lies in it, and both its long *)
(* edges are clear; what both of them pass through is seen along it          *)
Edge(r, e) == <<r[1] + e * r[5], r[2] + e * r[6], r[3] + e * r[5], r[4] + e * r[6]>>
Abs(x) == IF x < 0 THEN -x ELSE x
InBeam(r, x, y) ==
  LET ex == r[3] - r[1]  ey == r[4] - r[2]
      area == ex * r[6] - ey * r[5]
      a == ex * (y - r[2]) - ey * (x - r[1])
      b == r[5] * (y - r[2]) - r[6] * (x - r[1])
  IN 0 <= a /\ a <= area /\ -area <= b /\ b <= 0
Wide(r) == LET ex == r[3] - r[1]  ey == r[4] - r[2] IN ex * r[6] - ey * r[5] >= C.unit * (Abs(ex) + Abs(ey))
Ray == /\ phase = "rays" /\ k <= Len(C.rays)
       /\ LET r == C.rays[k]
              m == [i \in 1..Len(L) |-> <<Meets(Edge(r, 0), L[i]), Meets(Edge(r, 1), L[i])>>]
          IN IF ~Wide(r) \/ \E i \in 1..Len(L) : m[i][1] = 2 \/ m[i][2] = 2 \/ (L[i][5] = 0 /\ (InBeam(r, L[i][1], L[i][2]) \/ InBeam(r, L[i][3], L[i][4])))
               THEN bad' = bad \cup {<<"notaray", k>>} /\ UNCHANGED lit
               ELSE LET on == UNION {{L[i][6], L[i][7]} : i \in {x \in 1..Len(L) : m[x] = <<1, 1>>}}
                    IN /\ lit' = lit \cup {p \in on \X on : p[1] < p[2]}
                       /\ bad' = bad \cup {<<"hidesvisible", p[1], p[2], k>> : p \in {q \in on \X on : Hidden(q[1], q[2])}}
       /\ k' = k + 1 /\ UNCHANGED <<c, phase, part>>
RaysDone == /\ phase = "rays" /\ k > Len(C.rays) /\ phase' = "rows" /\ k' = 0
            /\ bad' = bad \cup {<<"hidesneighbour", L[i][6], L[i][7]>> :
                                 i \in {x \in 1..Len(L) : L[x][5] = 1 /\ (Hidden(L[x][6], L[x][7]) \/ Hidden(L[x][7], L[x][6]))}}
            /\ UNCHANGED <<c, part, lit>>

(* does the opaque line w stand across g between the places where openings a and b meet it?  Lines of  *)
(* a map do not cross, so of two of them one has both ends on one side of the other                    *)
EndSides(g, l) == <<Side(g[1], g[2], g[3], g[4], l[1], l[2]), Side(g[1], g[2], g[3], g[4], l[3], l[4])>>
Crosses(g, l) == LET e == EndSides(g, l) IN e[1] * e[2] = -1
Reaches(g, l) == LET e == EndSides(g, l) IN e[1] * e[2] <= 0
(* line w crosses g.  Ahead: -1 when l meets g before w does, 1 when after, 0 when at the same place   *)
Ahead(g, w, l) ==
  LET ws == Side(g[1], g[2], g[3], g[4], w[3], w[4])     \* > 0: w goes from the right of g to the left: behind g's heading is on its left
      s1 == Side(w[1], w[2], w[3], w[4], l[1], l[2])
      s2 == Side(w[1], w[2], w[3], w[4], l[3], l[4])
      e  == EndSides(g, l)
      \* which end(s) of l lie on g
  IN IF e[1] = 0 THEN -ws * s1
     ELSE IF e[2] = 0 THEN -ws * s2
     ELSE IF s1 * s2 >= 0 THEN -ws * Sgn(s1 + s2)
     ELSE \* w has both its ends on one side of l
          LET ls == e[2]
              u1 == Side(l[1], l[2], l[3], l[4], w[1], w[2])
              u2 == Side(l[1], l[2], l[3], l[4], w[3], w[4])
          IN ls * Sgn(u1 + u2)
Stops(g, w, a, b) == Crosses(g, w) /\ Ahead(g, w, a) * Ahead(g, w, b) = -1
Joins(g, i, j) == LET a == L[g[5]]  b == L[g[6]] IN
                  /\ Opening(g[5]) /\ Opening(g[6])
                  /\ i \in {a[6], a[7]} /\ j \in {b[6], b[7]}
                  /\ Reaches(g, a) /\ Reaches(g, b)
                  /\ \A w \in 1..Len(L) : L[w][5] = 1 \/ ~Stops(g, L[w], a, b)

AnyOpening == \E x \in 1..Len(L) : Opening(x)

Of(S, x) == \E y \in 1..Len(S) : S[y] = x
PairBad(i, j) ==
  (IF Hidden(i, j) # Hidden(j, i) THEN {<<"lopsided", i, j>>} ELSE {}) \cup
  (IF i = j /\ Hidden(i, i) THEN {<<"hidesself", i>>} ELSE {}) \cup
  {<<"variants", i, j, v>> : v \in {x \in 1..Len(C.alt) : C.alt[x][i + 1][j + 1] # C.tab[i + 1][j + 1]}} \cup
  (IF (Of(C.sly, i) \/ Of(C.sly, j)) /\ Hidden(i, j) THEN {<<"hidessly", i, j>>} ELSE {}) \cup
  (IF part[i] # part[j] /\ AnyOpening /\ ~Of(C.sly, i) /\ ~Of(C.sly, j) /\ ~Hidden(i, j) /\ C.graphs
     THEN {<<"showsapart", i, j>>} ELSE {}) \cup
  (IF C.judge /\ i > j /\ ~Hidden(i, j) /\ AnyOpening
     THEN IF \E x \in 1..Len(L) : Opening(x) /\ {i, j} = {L[x][6], L[x][7]} THEN {}
          ELSE IF C.graze[i + 1][j + 1] # <<>>
                 THEN IF Joins(C.graze[i + 1][j + 1], i, j) THEN {} ELSE {<<"notgrazing", i, j>>}
          ELSE {<<"showshidden", i, j>>}
     ELSE {})

Row == /\ phase = "rows" /\ k < C.n
       /\ bad' = bad \cup UNION {PairBad(k, j) : j \in Sectors}
       /\ k' = k + 1 /\ UNCHANGED <<c, phase, part, lit>>
RowsDone == /\ phase = "rows" /\ k >= C.n /\ phase' = "done" /\ UNCHANGED <<c, k, part, lit, bad>>

Next == Read \/ ReadDone \/ Ray \/ RaysDone \/ Row \/ RowsDone
Spec == Init /\ [][Next]_vars
(* rays that are seen both by the ray search and excluded by the grazing     *)
(* search would mean that this specification contradicts itself              *)
Coherent == phase = "done" /\ C.judge => (\A p \in lit : \/ C.graze[p[2] + 1][p[1] + 1] # <<>>
                                                         \/ \E x \in 1..Len(L) : Opening(x) /\ {p[1], p[2]} = {L[x][6], L[x][7]})
                                         \/ (PrintT(<<"VV-BAD", c, {<<"incoherent", 0>>}>>) /\ FALSE)
Conforms == phase = "done" => (bad = {} \/ (PrintT(<<"VV-BAD", c, bad>>) /\ FALSE))
=============================================================================
