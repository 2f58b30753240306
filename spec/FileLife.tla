------------------------------ MODULE FileLife ------------------------------
(* The life of the files of one run: the input archive, the temporary file   *)
(* that a rebuild in place goes through, and the output file of -o.          *)
(* Contents are old (the archive as it was), new (the complete result), part *)
(* or cut (anything else).  Any operation can fail, and the process can die  *)
(* between any two operations.                                               *)
EXTENDS Integers, Sequences

Inp == {"old", "cut", "new"}
Tmp == {"none", "part", "new"}
Out == {"none", "prev", "part", "new"}

(* what one operation may do to the files: a, b are records [inp, tmp, out] *)
TempGrows(a, b)   == a.inp = "old" /\ b.inp = "old" /\ b.tmp \in {"part", "new"} /\ b.out = a.out
OutGrows(a, b)    == a.inp = "old" /\ b.inp = "old" /\ b.out \in {"part", "new"} /\ b.tmp = a.tmp
Overwrite(a, b)   == a.tmp = "new" /\ b.tmp = "new" /\ b.inp \in {"cut", "new"} /\ b.out = a.out
Replace(a, b)     == a.tmp = "new" /\ b.tmp = "none" /\ b.inp = "new" /\ b.out = a.out      \* a rename
RemoveTemp(a, b)  == a.tmp # "none" /\ b.tmp = "none" /\ a.inp # "cut" /\ b.inp = a.inp /\ b.out = a.out
PublishOut(a, b)  == a.inp = "old" /\ b.inp = "old" /\ a.tmp = "new" /\ b.tmp = "none" /\ b.out = "new"
Allowed(a, b, inplace) ==
    \/ a = b
    \/ TempGrows(a, b)
    \/ (~inplace /\ (OutGrows(a, b) \/ PublishOut(a, b)))
    \/ (inplace /\ (Overwrite(a, b) \/ Replace(a, b)))
    \/ RemoveTemp(a, b)

NoLoss(a) == a.inp \in {"old", "new"} \/ a.tmp = "new"
Complete(a, inplace) == IF inplace THEN a.inp = "new" ELSE a.inp = "old" /\ a.out = "new"

(* what an ending means.  status: "ok", "fail", "dead"; unremovable: the     *)
(* temporary file could not be removed                                       *)
EndOk(a, inplace, status, claim, unremovable) ==
    CASE status = "ok"   -> Complete(a, inplace) /\ a.tmp = "none"
      [] status = "fail" -> ~claim /\ (a.tmp = "none" \/ unremovable \/ a.inp = "cut") /\ NoLoss(a) /\ (inplace \/ a.inp = "old")
      [] status = "dead" -> NoLoss(a) /\ (inplace \/ a.inp = "old")
=============================================================================
