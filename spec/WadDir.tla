------------------------------- MODULE WadDir -------------------------------
(* The directory scanner: how the lumps of an input archive become the lumps *)
(* of the output archive.  A cursor walks the input directory; a level block *)
(* opens at a marker that is selected for rebuilding, swallows the lumps     *)
(* that belong to a level, and closes at the first lump that does not; what  *)
(* was swallowed is then emitted in canonical order (missing lumps created,  *)
(* superseded duplicates dropped) or, when a mandatory lump is missing,      *)
(* verbatim.  Everything else is copied, or dropped when ejecting.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Order,      \* canonical order of level lumps (sequence of names)
          Must,       \* lumps a level cannot be rebuilt without
          Create      \* lumps that are created when missing

OrderSet == {Order[k] : k \in 1..Len(Order)}

(* opt: [blockmap, nodes : BOOLEAN, reject : {"build","zero","keep"},
         eject : BOOLEAN, filter : {"all","only","except"}, maps : set of names] *)
Selected(opt, nm) == CASE opt.filter = "all"  -> TRUE
                       [] opt.filter = "only" -> nm \in opt.maps
                       [] OTHER               -> nm \notin opt.maps

VARIABLES inp,    \* the input directory: sequence of lump names
          mk,     \* which input entries look like level markers (BOOLEAN sequence)
          opt,    \* the options of the run
          pos,    \* scanner position (last entry consumed)
          open,   \* 0, or the entry that opened the current level block
          body,   \* entries swallowed by the current block
          out,    \* output directory so far
          built   \* number of rebuilt levels

vars == <<inp, mk, opt, pos, open, body, out, built>>

Copy(i)  == [n |-> inp[i], w |-> "copy", i |-> i, lv |-> 0]
CopyL(i, lv) == [n |-> inp[i], w |-> "copy", i |-> i, lv |-> lv]

LastOf(b, nm) == LET S == {k \in 1..Len(b) : inp[b[k]] = nm}
                 IN  IF S = {} THEN 0 ELSE b[CHOOSE k \in S : \A j \in S : j <= k]

Valid(b) == \A nm \in Must : LastOf(b, nm) # 0

(* what a level lump turns into; src is 0 when the lump is created *)
LevelLump(nm, src, lv) ==
  LET kept  == IF src = 0 THEN [n |-> nm, w |-> "empty", i |-> 0, lv |-> lv] ELSE CopyL(src, lv)
      madeN == [n |-> nm, w |-> "built", i |-> src, lv |-> lv]
  IN CASE nm \in {"SEGS", "SSECTORS", "NODES"} -> IF opt.nodes THEN madeN ELSE kept
       [] nm \in {"LINEDEFS", "VERTEXES"}      -> IF opt.nodes THEN madeN ELSE kept
       [] nm = "BLOCKMAP" -> IF opt.blockmap THEN madeN ELSE kept
       [] nm = "REJECT"   -> CASE opt.reject = "build" -> madeN
                               [] opt.reject = "zero"  -> [n |-> nm, w |-> "zero", i |-> 0, lv |-> lv]
                               [] OTHER                -> kept
       [] OTHER -> kept

RECURSIVE Canon(_, _, _)
Canon(b, lv, k) ==
  IF k > Len(Order) THEN <<>>
  ELSE LET nm  == Order[k]
           src == LastOf(b, nm)
       IN (IF src # 0 \/ nm \in Create THEN <<LevelLump(nm, src, lv)>> ELSE <<>>) \o Canon(b, lv, k + 1)

Verbatim(b) == [k \in 1..Len(b) |-> Copy(b[k])]

Emit == IF Valid(body)
        THEN /\ out' = out \o <<CopyL(open, open)>> \o Canon(body, open, 1)
             /\ built' = built + 1
        ELSE /\ out' = out \o <<Copy(open)>> \o Verbatim(body)
             /\ UNCHANGED built

AtEnd  == pos = Len(inp)
Nxt    == inp[pos + 1]
NxtBody == ~AtEnd /\ ~mk[pos + 1] /\ Nxt \in OrderSet

Other == /\ open = 0 /\ ~AtEnd
         /\ ~(mk[pos + 1] /\ Selected(opt, Nxt))
         /\ out' = IF opt.eject THEN out ELSE Append(out, Copy(pos + 1))
         /\ pos' = pos + 1
         /\ UNCHANGED <<inp, mk, opt, open, body, built>>

OpenLevel == /\ open = 0 /\ ~AtEnd /\ mk[pos + 1] /\ Selected(opt, Nxt)
             /\ open' = pos + 1 /\ pos' = pos + 1 /\ body' = <<>>
             /\ UNCHANGED <<inp, mk, opt, out, built>>

Swallow == /\ open # 0 /\ NxtBody
           /\ body' = Append(body, pos + 1) /\ pos' = pos + 1
           /\ UNCHANGED <<inp, mk, opt, open, out, built>>

Close == /\ open # 0 /\ ~NxtBody
         /\ Emit
         /\ open' = 0 /\ body' = <<>>
         /\ UNCHANGED <<inp, mk, opt, pos>>

ScanNext == Other \/ OpenLevel \/ Swallow \/ Close
Done == AtEnd /\ open = 0

----------------------------------------------------------------------------
(* The design, explored exhaustively over every directory up to MaxLen over a small alphabet *)
CONSTANTS Alphabet, MarkerNames, MaxLen, Opts

Init == /\ inp \in UNION {[1..k -> Alphabet] : k \in 0..MaxLen}
        /\ mk = [k \in 1..Len(inp) |-> inp[k] \in MarkerNames]
        /\ opt \in Opts
        /\ pos = 0 /\ open = 0 /\ body = <<>> /\ out = <<>> /\ built = 0

Spec == Init /\ [][ScanNext]_vars

CopiedFrom(o) == {o[k].i : k \in {j \in 1..Len(o) : o[j].w = "copy"}}

(* entries that survive are in input order unless both belong to the same rebuilt level *)
OrderKept == Done => \A a, b \in 1..Len(out) :
   (a < b /\ out[a].w = "copy" /\ out[b].w = "copy") =>
      \/ out[a].i < out[b].i
      \/ (out[a].lv = out[b].lv /\ out[a].lv # 0)

(* without ejecting, an entry disappears only as a superseded duplicate or as a rebuilt level lump *)
NothingLost == (Done /\ ~opt.eject) => \A i \in 1..Len(inp) :
   \/ i \in CopiedFrom(out)
   \/ \E k \in 1..Len(out) : out[k].w \in {"built", "zero"} /\ out[k].n = inp[i] /\ out[k].lv > 0 /\ out[k].lv < i
   \/ \E k \in 1..Len(out) : out[k].n = inp[i] /\ out[k].lv > 0 /\ out[k].i > i

CopiedOnce == Done => \A a, b \in 1..Len(out) :
   (a # b /\ out[a].w = "copy" /\ out[b].w = "copy") => out[a].i # out[b].i

(* every rebuilt level: mandatory and creatable lumps exactly once, canonical order *)
LevelSlice(lv) == SelectSeq(out, LAMBDA e : e.lv = lv)
OrdIdx(nm) == CHOOSE k \in 1..Len(Order) : Order[k] = nm
Canonical == Done => \A lv \in {out[k].lv : k \in 1..Len(out)} \ {0} :
   LET s == LevelSlice(lv)
   IN /\ \A nm \in Must \cup Create : Cardinality({k \in 2..Len(s) : s[k].n = nm}) = 1
      /\ \A a, b \in 2..Len(s) : a < b => OrdIdx(s[a].n) < OrdIdx(s[b].n)
      /\ s[1].i = lv

EjectOnlyLevels == (Done /\ opt.eject) => \A k \in 1..Len(out) :
   out[k].lv # 0 \/ ~mk[out[k].i] \/ Selected(opt, out[k].n)

(* a run with nothing ejected and nothing rebuilt is the identity *)
IdentityWhenNothingSelected == (Done /\ ~opt.eject /\ built = 0) =>
   out = [k \in 1..Len(inp) |-> Copy(k)]
=============================================================================
