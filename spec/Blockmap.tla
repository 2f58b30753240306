------------------------------ MODULE Blockmap ------------------------------
(* A game engine reading the BLOCKMAP lump.  The state machine walks over    *)
(* all blocks of the grid; in each it follows the block's offset and reads   *)
(* the line list the way engines do (a header word first when the mode has   *)
(* one, then line numbers up to the terminator).  What it reads is compared  *)
(* with the geometry of the lines and with the rules about which lines       *)
(* belong in a blockmap at all.                                              *)
(*                                                                           *)
(* C.kind = "map"    one map, one lump: full geometry                        *)
(* C.kind = "tiny"   every line lies inside a single block; thousands of     *)
(*                   lines; sized to sit at the edge of the offset limit     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Block == 128
Term  == 65535
Long  == 2048

VARIABLES c, phase, blk, cnt, lists, bad
vars == <<c, phase, blk, cnt, lists, bad>>

C == Cases[c]
W == C.words
Lines == C.lines
NL == Len(Lines)
Opt == C.opt
SetOf(s) == {s[k] : k \in 1..Len(s)}
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Bit(x, b) == (x \div b) % 2 = 1

Marks == SetOf(C.marks)
(* --- which lines take part ------------------------------------------------ *)
Dummy(k)   == k \in Marks                         \* copies kept for scrolling walls

Tagged(k)  == ~Opt.hexen /\ Lines[k].tag = 999
MultiSector == \/ Opt.hexen
               \/ \E k \in 1..NL : Lines[k].act \in ({7, 8, 9, 100, 127, 106, 107, 146, 155, 191} \cup 256..259 \cup 12288..13311)
NoCollide(l) == /\ Bit(l.fl, 4) /\ ~Bit(l.fl, 1) /\ ~Bit(l.fl, 2) /\ ~Bit(l.fl, 4096) /\ ~Bit(l.fl, 8192)
                /\ l.act = 0 /\ l.fs >= 0 /\ l.bs >= 0
Selfref(s) == \A k \in 1..NL : (Lines[k].fs = s \/ Lines[k].bs = s) => Lines[k].fs = Lines[k].bs
(* a closed outline of a self-referencing sector: all its lines meet two by two *)
Ends(k) == <<<<Lines[k].x1, Lines[k].y1>>, <<Lines[k].x2, Lines[k].y2>>>>
Outline(s) ==
  LET K == {k \in 1..NL : Lines[k].fs = s /\ Lines[k].bs = s}
      P == UNION {{Ends(k)[1], Ends(k)[2]} : k \in K}
  IN  \A p \in P : Cardinality({k \in K : p \in {Ends(k)[1], Ends(k)[2]}}) = 2
MayDrop(k) ==
  LET l == Lines[k] IN
  /\ Opt.br /\ NoCollide(l)
  /\ IF l.fs = l.bs
       THEN ~(Selfref(l.fs) /\ Outline(l.fs))
       ELSE /\ ~MultiSector
            /\ LET a == C.secs[l.fs + 1]
                   b == C.secs[l.bs + 1]
               IN  a.f = b.f /\ a.c = b.c /\ a.tag = 0 /\ b.tag = 0
                   /\ a.sp \notin {10, 14} /\ b.sp \notin {10, 14}
MustOut == {k \in 1..NL : Dummy(k) \/ Tagged(k)}
Kept    == {k \in 1..NL : ~Dummy(k) /\ ~Tagged(k) /\ ~MayDrop(k)}

(* --- geometry ------------------------------------------------------------- *)
OX == C.ox
OY == C.oy
GW == C.w
GH == C.h
NB == GW * GH
X0(b) == OX + Block * (b % GW)
Y0(b) == OY + Block * (b \div GW)

Side(l, px, py) == (l.x2 - l.x1) * (py - l.y1) - (l.y2 - l.y1) * (px - l.x1)

(* the closed segment meets the open square grown by e.  A diagonal line that *)
(* clips a corner by less than a unit is within the rasteriser's rounding     *)
Through(l, x, y, e) ==
  /\ Max(l.x1, l.x2) > x - e /\ Min(l.x1, l.x2) < x + Block + e
  /\ Max(l.y1, l.y2) > y - e /\ Min(l.y1, l.y2) < y + Block + e
  /\ LET s1 == Side(l, x - e, y - e)
         s2 == Side(l, x + Block + e, y - e)
         s3 == Side(l, x - e, y + Block + e)
         s4 == Side(l, x + Block + e, y + Block + e)
     IN  /\ \/ s1 > 0 \/ s2 > 0 \/ s3 > 0 \/ s4 > 0
         /\ \/ s1 < 0 \/ s2 < 0 \/ s3 < 0 \/ s4 < 0

Axis(l) == l.x1 = l.x2 \/ l.y1 = l.y2
(* axis-aligned: the block owns its lower/left border only                    *)
AxisIn(l, x, y) == /\ Max(l.x1, l.x2) >= x /\ Min(l.x1, l.x2) < x + Block
                   /\ Max(l.y1, l.y2) >= y /\ Min(l.y1, l.y2) < y + Block
Must(k, b) == LET l == Lines[k]  x == X0(b)  y == Y0(b) IN
              IF Axis(l) THEN AxisIn(l, x, y) ELSE Through(l, x, y, -1)
(* closed contact for axis-aligned lines; one unit of rasterisation slack for *)
(* the others, as in every blockmap builder derived from ZDBSP                *)
May(k, b) == LET l == Lines[k]  x == X0(b)  y == Y0(b) IN
             IF Axis(l) THEN /\ Max(l.x1, l.x2) >= x /\ Min(l.x1, l.x2) <= x + Block
                             /\ Max(l.y1, l.y2) >= y /\ Min(l.y1, l.y2) <= y + Block
             ELSE Through(l, x, y, 2)

(* --- reading a list -------------------------------------------------------- *)
RECURSIVE TermAt(_)
TermAt(p) == IF p > Len(W) THEN 0 ELSE IF W[p] = Term THEN p ELSE TermAt(p + 1)
HasHdr == Opt.z > 0
Off(b) == W[5 + b]
Start(b) == Off(b) + 1 + (IF HasHdr THEN 1 ELSE 0)
End(b)   == TermAt(Start(b))
Hdr(b)   == W[Off(b) + 1]

LongLine(l) == \/ Abs(l.x2 - l.x1) >= Long \/ Abs(l.y2 - l.y1) >= Long
               \/ (l.x2 - l.x1) * (l.x2 - l.x1) + (l.y2 - l.y1) * (l.y2 - l.y1) >= Long * Long
Eligible(k) == ~Tagged(k) /\ ~LongLine(Lines[k])
HdrBad(b) == IF ~HasHdr THEN {}
             ELSE IF Hdr(b) >= NL THEN {<<"header", b, Hdr(b)>>}
             ELSE IF Opt.sub = "s" THEN {}
             ELSE (IF Opt.z = 2 /\ Hdr(b) # 0 THEN {<<"header0", b, Hdr(b)>>} ELSE {})
             \cup (IF Hdr(b) # Hdr(0) THEN {<<"headermix", b, Hdr(b)>>} ELSE {})
             \cup (IF Opt.z = 1 /\ C.kind = "map" /\ ~Eligible(Hdr(b) + 1) /\ \E k \in 1..NL : Eligible(k)
                     THEN {<<"headerlong", b, Hdr(b)>>} ELSE {})

Init == /\ c \in 1..Len(Cases)
        /\ phase = "head" /\ blk = 0 /\ cnt = 0 /\ lists = {} /\ bad = {}

(* --- header and grid -------------------------------------------------------- *)
KX == UNION {{Lines[k].x1, Lines[k].x2} : k \in Kept}
KY == UNION {{Lines[k].y1, Lines[k].y2} : k \in Kept}
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* a line that may be dropped might not have been: bounds are exact only when none exists *)
Sharp == ~\E k \in 1..NL : MayDrop(k)
GridBad ==
  IF Kept = {} THEN {}
  ELSE (IF MinOf(KX) < OX \/ MinOf(KY) < OY \/ MaxOf(KX) >= OX + Block * GW \/ MaxOf(KY) >= OY + Block * GH
          THEN {<<"grid", OX, OY, GW, GH>>} ELSE {})
       \cup (IF Sharp /\ (MaxOf(KX) < OX + Block * (GW - 1) \/ MaxOf(KY) < OY + Block * (GH - 1))
               THEN {<<"loosegrid", GW, GH>>} ELSE {})
       \cup (IF Sharp /\ Opt.offx >= 0 /\ (OX # MinOf(KX) - Opt.offx \/ OY # MinOf(KY) - Opt.offy)
               THEN {<<"origin", OX, OY>>} ELSE {})

ReadHeader == /\ phase = "head"
        /\ LET empty == Len(W) = 0
               short == ~empty /\ (Len(W) < 4 \/ GW = 0 \/ GH = 0 \/ Len(W) < 4 + NB)
           IN  /\ bad' = IF empty THEN (IF C.mustfit THEN {<<"emptied">>} ELSE {})
                         ELSE IF short THEN {<<"short", Len(W)>>}
                         ELSE (IF C.mustempty THEN {<<"overlimit", Len(W)>>} ELSE {})
                              \cup (IF C.kind = "map" THEN GridBad ELSE {})
               /\ phase' = IF empty \/ short THEN "done" ELSE "read"
        /\ UNCHANGED <<c, blk, cnt, lists>>

(* --- one block per step ------------------------------------------------------ *)
BlockBad(b, L) ==
       LET S == SetOf(L)
       IN  HdrBad(b)
           \cup (IF Off(b) = 3 + NB /\ (b # NB - 1 \/ ~HasHdr) /\ Off(b) # Off(NB - 1) THEN {<<"offset", b, Off(b)>>} ELSE {})
           \cup (IF Cardinality(S) # Len(L) THEN {<<"twice", b>>} ELSE {})
           \cup {<<"nosuchline", b, n>> : n \in {n \in S : n >= NL}}
           \cup (IF C.kind = "tiny"
                   THEN {<<"clear", b, n>> : n \in {n \in S : n < NL /\ ~AxisIn(Lines[n + 1], X0(b), Y0(b))}}
                   ELSE {<<"missing", b, k - 1>> : k \in {k \in Kept : k - 1 \notin S /\ Must(k, b)}}
                        \cup {<<"excluded", b, n>> : n \in {n \in S : (n + 1) \in MustOut}}
                        \cup (IF Opt.sub = "a" THEN {}
                              ELSE {<<"clear", b, n>> : n \in {n \in S : n < NL /\ ~May(n + 1, b)}}))

(* what reading block b shows: <<lines read (-1 unreadable), complaints>> *)
Look(b) ==
  IF Off(b) + 1 > Len(W) \/ Off(b) < (IF HasHdr THEN 3 ELSE 4) + NB THEN <<-1, {<<"offset", b, Off(b)>>}>>
  ELSE LET e == End(b) IN
       IF e = 0 THEN <<-1, {<<"unterminated", b>>}>>
       ELSE <<e - Start(b), BlockBad(b, SubSeq(W, Start(b), e - 1))>>

Read == /\ phase = "read" /\ blk < NB /\ C.kind = "map"
        /\ LET r == Look(blk) IN
           /\ bad' = bad \cup r[2]
           /\ cnt' = IF r[1] < 0 THEN cnt ELSE cnt + r[1]
           /\ lists' = IF r[1] < 0 THEN lists ELSE lists \cup {SetOf(SubSeq(W, Start(blk), End(blk) - 1))}
           /\ blk' = IF r[1] < 0 THEN NB ELSE blk + 1
        /\ UNCHANGED <<c, phase>>

(* big lumps are read a row of blocks at a time *)
RECURSIVE SumTo(_, _, _)
SumTo(f, b, e) == IF b >= e THEN 0 ELSE f[b][1] + SumTo(f, b + 1, e)
ReadRow == /\ phase = "read" /\ blk < NB /\ C.kind = "tiny"
           /\ \E f \in {[b \in blk..(blk + GW - 1) |-> Look(b)]} :
                LET complaints == UNION {f[b][2] : b \in blk..(blk + GW - 1)} IN
                /\ cnt' = cnt + SumTo(f, blk, blk + GW)
                /\ bad' = bad \cup complaints
                /\ blk' = IF complaints = {} THEN blk + GW ELSE NB
           /\ UNCHANGED <<c, phase, lists>>

(* --- the lump as a whole ------------------------------------------------------ *)
RECURSIVE SumSizes(_)
SumSizes(S) == IF S = {} THEN 0
               ELSE LET s == CHOOSE s \in S : TRUE
                    IN  Cardinality(s) + 1 + (IF HasHdr THEN 1 ELSE 0) + SumSizes(S \ {s})
Plain == 4 + NB + SumSizes(lists)
SubsetPair == \E s \in lists : \E t \in lists : s # t /\ s \subseteq t

Whole == /\ phase = "read" /\ blk = NB
         /\ bad' = bad \cup
              (IF C.kind = "tiny" THEN (IF cnt # NL THEN {<<"missing", cnt, NL>>} ELSE {})
               ELSE IF bad # {} THEN {}
               ELSE (IF Len(W) > Plain THEN {<<"waste", Len(W), Plain>>} ELSE {})
                    \cup (IF Opt.sub = "s" /\ {} \in lists /\ Cardinality(lists) > 1 /\ Len(W) >= Plain
                            THEN {<<"uncompressed", Len(W), Plain>>} ELSE {}))
         /\ phase' = "done"
         /\ UNCHANGED <<c, blk, cnt, lists>>

Next == ReadHeader \/ Read \/ ReadRow \/ Whole
Spec == Init /\ [][Next]_vars

Conforms == phase = "done" => (bad = {} \/ (PrintT(<<"VV-BAD", c, bad>>) /\ FALSE))
=============================================================================
