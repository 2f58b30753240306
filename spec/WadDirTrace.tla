---------------------------- MODULE WadDirTrace ----------------------------
(* Conformance: every case is one run of the real program.  The scanner of   *)
(* WadDir is run on the recorded input directory and its result is compared, *)
(* entry by entry, with the directory the program wrote.                     *)
EXTENDS WadDir, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

Dig  == {"0","1","2","3","4","5","6","7","8","9"}
Dig1 == Dig \ {"0"}
Markers == {"MAP" \o a \o b : a \in Dig, b \in Dig}
           \cup {"E" \o e \o "M" \o a : e \in Dig1, a \in Dig}
           \cup {"E" \o e \o "M" \o a \o b : e \in Dig1, a \in Dig, b \in Dig}

VARIABLES c, cur, bad
tvars == <<inp, mk, opt, pos, open, body, out, built, c, cur, bad>>

C == Cases[c]
SetOf(s) == {s[k] : k \in 1..Len(s)}

TInit == /\ c \in 1..Len(Cases)
         /\ inp = Cases[c].inp
         /\ mk = [k \in 1..Len(Cases[c].inp) |-> Cases[c].inp[k] \in Markers]
         /\ opt = [blockmap |-> Cases[c].opt.blockmap, nodes |-> Cases[c].opt.nodes,
                   reject |-> Cases[c].opt.reject, eject |-> Cases[c].opt.eject,
                   filter |-> Cases[c].opt.filter, maps |-> SetOf(Cases[c].opt.maps)]
         /\ pos = 0 /\ open = 0 /\ body = <<>> /\ out = <<>> /\ built = 0
         /\ cur = 0 /\ bad = {}

Scan == cur = 0 /\ ScanNext /\ UNCHANGED <<c, cur, bad>>

(* the observed run: C.status \in {"ok","refused"}; C.out[k] = [n, same, size, zero, pos, hdr]
   same = input entries with identical bytes; zero = all bytes are zero                       *)
O == C.out
NZero(lv) == LET S == {k \in 1..Len(inp) : inp[k] = "SECTORS" /\ k > lv /\ \A j \in (lv+1)..k : ~mk[j] /\ inp[j] \in OrderSet}
                 k == CHOOSE k \in S : \A j \in S : j <= k
                 n == C.sz[k] \div 26
             IN  (n * n + 7) \div 8

Status == IF built = 0 THEN "refused" ELSE "ok"

(* fewest entries that explain the observed directory is the whole of it: compare lengths, then entries *)
Compare ==
  /\ Done /\ cur = 0
  /\ cur' = IF Status = "ok" /\ C.status = "ok" /\ Len(O) = Len(out) THEN 1 ELSE Len(O) + 1
  /\ bad' = bad
       \cup (IF C.status # Status THEN {<<"status", C.status>>} ELSE {})
       \cup (IF C.status = "ok" /\ Status = "ok" /\ Len(O) # Len(out) THEN {<<"entries", Len(O), Len(out)>>} ELSE {})
       \cup (IF C.status = "ok" /\ C.kind # C.okind THEN {<<"kind">>} ELSE {})
  /\ UNCHANGED <<inp, mk, opt, pos, open, body, out, built, c>>

EntryBad(e, o) ==
  (IF e.n # o.n THEN {<<"name", cur, o.n, e.n>>} ELSE {})
  \cup CASE e.w = "copy"  -> IF e.i \in SetOf(o.same) THEN {} ELSE {<<"content", cur, e.n>>}
         [] e.w = "empty" -> IF o.size = 0 THEN {} ELSE {<<"notempty", cur, e.n>>}
         [] e.w = "zero"  -> IF o.zero /\ o.size = NZero(e.lv) THEN {} ELSE {<<"zeroreject", cur, o.size, NZero(e.lv)>>}
         [] OTHER -> {}

Entry == /\ Done /\ cur >= 1 /\ cur <= Len(O)
         /\ bad' = bad \cup EntryBad(out[cur], O[cur])
         /\ cur' = cur + 1
         /\ UNCHANGED <<inp, mk, opt, pos, open, body, out, built, c>>

TNext == Scan \/ Compare \/ Entry
TSpec == TInit /\ [][TNext]_tvars

Finished == Done /\ cur = Len(O) + 1
Conforms == Finished => (bad = {} \/ (PrintT(<<"VV-BAD", c, bad>>) /\ FALSE))

(* the design invariants also hold along every recorded run *)
TraceDesign == OrderKept /\ NothingLost /\ CopiedOnce /\ Canonical /\ EjectOnlyLevels /\ IdentityWhenNothingSelected
=============================================================================
