----------------------------- MODULE FileLifeMC -----------------------------
(* The program as it goes about its files, with faults and deaths: that the  *)
(* steps allowed in FileLife are enough to do the work and never lose the    *)
(* archive.                                                                  *)
EXTENDS FileLife, TLC
VARIABLES inplace, f, status, failed, stuck
vars == <<inplace, f, status, failed, stuck>>
Init == /\ inplace \in BOOLEAN
        /\ f \in {[inp |-> "old", tmp |-> "none", out |-> o] : o \in {"none", "prev"}}
        /\ (inplace => f.out = "none")
        /\ status = "run" /\ failed = FALSE /\ stuck = FALSE

Op(g) == /\ status = "run" /\ Allowed(f, g, inplace) /\ f' = g /\ UNCHANGED <<inplace, status, stuck, failed>>
Create  == ~failed /\ f.tmp = "none" /\ inplace /\ f.inp = "old" /\ Op([f EXCEPT !.tmp = "part"])
Write   == ~failed /\ inplace /\ f.tmp = "part" /\ Op([f EXCEPT !.tmp = "new"])
Open    == ~failed /\ ~inplace /\ f.out \in {"none", "prev"} /\ Op([f EXCEPT !.out = "part"])
WriteO  == ~failed /\ ~inplace /\ f.out = "part" /\ Op([f EXCEPT !.out = "new"])
Trunc   == ~failed /\ inplace /\ f.tmp = "new" /\ f.inp = "old" /\ Op([f EXCEPT !.inp = "cut"])
Copy    == ~failed /\ inplace /\ f.inp = "cut" /\ Op([f EXCEPT !.inp = "new"])
Rename  == ~failed /\ inplace /\ f.tmp = "new" /\ f.inp = "old" /\ Op([f EXCEPT !.inp = "new", !.tmp = "none"])
Remove  == f.tmp # "none" /\ f.inp # "cut" /\ (failed \/ f.inp = "new") /\ ~stuck /\ Op([f EXCEPT !.tmp = "none"])
Fault   == status = "run" /\ ~failed /\ failed' = TRUE /\ UNCHANGED <<inplace, f, status, stuck>>
Stuck   == status = "run" /\ f.tmp # "none" /\ (failed \/ f.inp = "new") /\ stuck' = TRUE /\ failed' = TRUE /\ UNCHANGED <<inplace, f, status>>
Ok      == status = "run" /\ ~failed /\ Complete(f, inplace) /\ f.tmp = "none" /\ status' = "ok" /\ UNCHANGED <<inplace, f, failed, stuck>>
Fail    == status = "run" /\ failed /\ (f.tmp = "none" \/ stuck \/ f.inp = "cut") /\ status' = "fail" /\ UNCHANGED <<inplace, f, failed, stuck>>
Die     == status = "run" /\ status' = "dead" /\ UNCHANGED <<inplace, f, failed, stuck>>
Next == Create \/ Write \/ Open \/ WriteO \/ Trunc \/ Copy \/ Rename \/ Remove \/ Fault \/ Stuck \/ Ok \/ Fail \/ Die
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOk == f.inp \in Inp /\ f.tmp \in Tmp /\ f.out \in Out
Never == NoLoss(f) /\ (~inplace => f.inp = "old")
Ending == status # "run" => EndOk(f, inplace, status, FALSE, stuck)
Ends == <>(status # "run")
Steps == [][Allowed(f, f', inplace)]_f
=============================================================================
