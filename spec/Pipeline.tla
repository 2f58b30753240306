------------------------------ MODULE Pipeline ------------------------------
(* The goroutines that process levels and the messages between them: main     *)
(* reads lumps, starts the builders when what they need has been read,        *)
(* collects their results and sends lumps to the write bus; Control and       *)
(* Generator serve the map of solid lines to the builders of nodes and        *)
(* reject; Reject may ask main for an existing table ("nag").                 *)
(*                                                                           *)
(* A case fixes the archive (what main meets, in order) and the options, and  *)
(* for each level whether there may be too few segs for nodes (few); whether  *)
(* a format overflows, whether reject finds lines to see through and whether  *)
(* a table is refused is left open. Log(e) is a step that the program can be  *)
(* seen to make: when the specification follows a recorded run, it is the     *)
(* next recorded event.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cases,     \* sequence of cases
          Tracing,   \* follow a recorded run
          Reduced    \* leave out interleavings of steps that concern nobody else
VARIABLES c, C,      \* number of the case, and the case without its trace
          ti, tr,    \* number of events that were followed, and those to come
          prog,      \* what main has still to do
          br, wrote, have, \* collector: branches open, reject written already, results kept
          bus, closed, written,
          ctl, users, sched, cq,  \* Control of each level, its queue
          gen, made, gq,          \* Generator of each level, its queue
          nod, nq, rej, bmp       \* builders of each level
vars == <<c, C, ti, tr, prog, br, wrote, have, bus, closed, written, ctl, users, sched, cq, gen, made, gq, nod, nq, rej, bmp>>

Log(e) == IF Tracing THEN tr # <<>> /\ Head(tr) = e /\ tr' = Tail(tr) /\ ti' = ti + 1
          ELSE UNCHANGED <<ti, tr>>
Quiet == UNCHANGED <<ti, tr>>

NEED == 0  NONEED == 1  DONE == 2  GENERATE == 4  RETRIEVE == 5  DIE == 6
NODES == 0  REJECT == 1
BrNodes == 1  BrReject == 2  BrBlockmap == 3
CAP == 4

---------------------------------------------------------------------------
(* What main does, lump by lump. *)
I(op, a, l) == [op |-> op, a |-> a, l |-> l]
Idx(lv, name) == LET S == {i \in 1..Len(lv.lumps) : lv.lumps[i].n = name}
                 IN IF S = {} THEN 0 ELSE lv.lumps[CHOOSE i \in S : TRUE].i
Rebuilt(k, name) == \/ name = "REJECT" /\ k.rej # "keep"
                    \/ name = "BLOCKMAP" /\ k.bm
                    \/ name \in {"SEGS", "SSECTORS", "NODES", "LINEDEFS", "VERTEXES"} /\ k.nodes
Seen(lv, i, name) == \E j \in 1..i : lv.lumps[j].n = name
(* the lump after which a condition on what has been read holds first *)
First(lv, names) == LET S == {i \in 1..Len(lv.lumps) : \A n \in names : Seen(lv, i, n)}
                    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Lines == {"LINEDEFS", "VERTEXES"}
CtlAt(lv) == First(lv, Lines)
BmAt(k, lv) == IF ~k.bm THEN 0 ELSE First(lv, IF k.rnc THEN Lines \cup {"SECTORS", "SIDEDEFS"} ELSE Lines)
Full(lv) == lv.sides > 0 /\ lv.sectors > 0
RejAt(k, lv) == IF k.rej # "build" \/ ~Full(lv) THEN 0 ELSE First(lv, Lines \cup {"SECTORS", "SIDEDEFS"})
NodAt(k, lv) == IF ~k.nodes \/ ~Full(lv) THEN 0
                ELSE First(lv, Lines \cup {"SECTORS", "SIDEDEFS"} \cup (IF lv.hexen THEN {"THINGS"} ELSE {}))
If(b, s) == IF b THEN s ELSE <<>>
Gos(S, l) == If(S # {}, <<I("go", S, l)>>)
Ctls(S, l) == If(S # {}, <<I("ctl", S, l)>>)
AtLump(k, lv, l, i) ==
  If(~Rebuilt(k, lv.lumps[i].n), <<I("w", lv.lumps[i].i, l)>>)
  \o Gos((IF CtlAt(lv) = i THEN {"gocontrol"} ELSE {}) \cup (IF BmAt(k, lv) = i THEN {"goblockmap"} ELSE {})
         \cup (IF RejAt(k, lv) = i THEN {"goreject"} ELSE {}) \cup (IF NodAt(k, lv) = i THEN {"gonodes"} ELSE {}), l)
RECURSIVE AtLumps(_, _, _, _)
AtLumps(k, lv, l, i) == IF i > Len(lv.lumps) THEN <<>> ELSE AtLump(k, lv, l, i) \o AtLumps(k, lv, l, i + 1)
NodeLumps(lv, l) == [j \in 1..5 |-> I("w", Idx(lv, <<"LINEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES">>[j]), l)]
LevelProg(k, lv, l) ==
  <<I("ev", <<"level", lv.i>>, l)>> \o AtLumps(k, lv, l, 1)
  \o Ctls((IF RejAt(k, lv) = 0 THEN {REJECT} ELSE {}) \cup (IF NodAt(k, lv) = 0 THEN {NODES} ELSE {}), l)
  \o If(k.nodes /\ NodAt(k, lv) = 0, NodeLumps(lv, l))
  \o If(k.rej = "build" /\ RejAt(k, lv) = 0, <<I("w", Idx(lv, "REJECT"), l)>>)
  \o <<I("ev", <<"wait">>, l), I("branches", 0, l), I("collect", 0, l), I("ev", <<"leveldone">>, l), I("sync", 0, l), I("synced", 0, l)>>
RECURSIVE DirProg(_, _, _)
DirProg(k, i, l) ==
  IF i > Len(k.dir) THEN <<I("close", 0, 0), I("finish", 0, 0)>>
  ELSE LET d == k.dir[i]
       IN If(d.raw, <<I("w", d.i, 0)>>)
          \o (IF Len(d.lumps) > 0 THEN LevelProg(k, d, l + 1) \o DirProg(k, i + 1, l + 1)
              ELSE DirProg(k, i + 1, l))
Levels(k) == SelectSeq(k.dir, LAMBDA d : Len(d.lumps) > 0)
NL == Len(Levels(C))
Lv(l) == Levels(C)[l]

---------------------------------------------------------------------------
Init ==
  /\ c \in 1..Len(Cases) /\ ti = 1
  /\ tr = (IF Tracing THEN Cases[c].trace ELSE <<>>)
  /\ C = [f \in DOMAIN Cases[c] \ {"trace"} |-> Cases[c][f]]
  /\ prog = DirProg(C, 1, 0)
  /\ br = {} /\ wrote = FALSE /\ have = {}
  /\ bus = <<"idle">> /\ closed = FALSE /\ written = <<>>
  /\ ctl = [l \in 1..NL |-> <<"none">>] /\ users = [l \in 1..NL |-> <<9, 9>>] /\ sched = [l \in 1..NL |-> FALSE]
  /\ cq = [l \in 1..NL |-> <<>>]
  /\ gen = [l \in 1..NL |-> <<"none">>] /\ made = [l \in 1..NL |-> 0] /\ gq = [l \in 1..NL |-> <<>>]
  /\ nod = [l \in 1..NL |-> "none"] /\ nq = [l \in 1..NL |-> 0]
  /\ rej = [l \in 1..NL |-> "none"] /\ bmp = [l \in 1..NL |-> "none"]

uBuild == UNCHANGED <<nod, nq, rej, bmp>>
uCtl == UNCHANGED <<ctl, users, sched>>
uGen == UNCHANGED <<gen, made>>
uBus == UNCHANGED <<bus, closed, written>>
uCol == UNCHANGED <<br, wrote, have>>
uMain == UNCHANGED prog

(* Main: the next instruction *)
P == Head(prog)
Op(o) == prog # <<>> /\ P.op = o
Next1 == prog' = Tail(prog)
MainEv == Op("ev") /\ Log(P.a) /\ Next1 /\ UNCHANGED <<c, C, cq, gq>> /\ uCol /\ uBus /\ uCtl /\ uGen /\ uBuild
(* in any order *)
MainGo ==
  /\ Op("go")
  /\ \E x \in P.a :
       /\ Log(<<x>>)
       /\ prog' = Gos(P.a \ {x}, P.l) \o Tail(prog)
       /\ ctl' = IF x = "gocontrol" THEN [ctl EXCEPT ![P.l] = <<"wait">>] ELSE ctl
       /\ gen' = IF x = "gocontrol" THEN [gen EXCEPT ![P.l] = <<"wait">>] ELSE gen
       /\ bmp' = IF x = "goblockmap" THEN [bmp EXCEPT ![P.l] = "work"] ELSE bmp
       /\ rej' = IF x = "goreject" THEN [rej EXCEPT ![P.l] = "work"] ELSE rej
       /\ nod' = IF x = "gonodes" THEN [nod EXCEPT ![P.l] = "work"] ELSE nod
  /\ UNCHANGED <<c, C, users, sched, cq, made, gq, nq>> /\ uCol /\ uBus
MainCtl == Op("ctl") /\ Len(cq[P.l]) < CAP /\ Quiet
           /\ \E x \in P.a : /\ prog' = Ctls(P.a \ {x}, P.l) \o Tail(prog)
                             /\ cq' = [cq EXCEPT ![P.l] = Append(@, <<x, NONEED>>)]
           /\ UNCHANGED <<c, C, gq>> /\ uCol /\ uBus /\ uCtl /\ uGen /\ uBuild
MainWrite == Op("w") /\ bus = <<"idle">> /\ Quiet /\ Next1 /\ bus' = <<"got", P.a>>
             /\ UNCHANGED <<c, C, cq, gq, closed, written>> /\ uCol /\ uCtl /\ uGen /\ uBuild
MainSync == Op("sync") /\ bus = <<"idle">> /\ Quiet /\ Next1 /\ bus' = <<"gotsync">>
            /\ UNCHANGED <<c, C, cq, gq, closed, written>> /\ uCol /\ uCtl /\ uGen /\ uBuild
MainSynced == Op("synced") /\ bus = <<"sync">> /\ Quiet /\ Next1 /\ bus' = <<"idle">>
              /\ UNCHANGED <<c, C, cq, gq, closed, written>> /\ uCol /\ uCtl /\ uGen /\ uBuild
MainClose == Op("close") /\ Quiet /\ Next1 /\ closed' = TRUE
             /\ UNCHANGED <<c, C, cq, gq, bus, written>> /\ uCol /\ uCtl /\ uGen /\ uBuild
MainFinish == Op("finish") /\ bus = <<"fin">> /\ Quiet /\ Next1 /\ bus' = <<"end">>
              /\ UNCHANGED <<c, C, cq, gq, closed, written>> /\ uCol /\ uCtl /\ uGen /\ uBuild

(* Main: the collector *)
LumpsOf(b, l) == IF b = BrNodes THEN NodeLumps(Lv(l), l)
                 ELSE <<I("w", Idx(Lv(l), IF b = BrReject THEN "REJECT" ELSE "BLOCKMAP"), l)>>
Got(b) == /\ br' = br \ {b} /\ have' = have \cup {b}
          /\ wrote' = (wrote \/ b = BrReject)
          /\ prog' = If(~C.det /\ (b # BrReject \/ ~wrote), LumpsOf(b, P.l)) \o prog
MainBranches ==
  /\ Op("branches") /\ Quiet /\ Next1
  /\ br' = (IF nod[P.l] # "none" THEN {BrNodes} ELSE {}) \cup (IF rej[P.l] # "none" THEN {BrReject} ELSE {})
           \cup (IF bmp[P.l] # "none" THEN {BrBlockmap} ELSE {})
  /\ wrote' = FALSE /\ have' = {}
  /\ UNCHANGED <<c, C, cq, gq>> /\ uBus /\ uCtl /\ uGen /\ uBuild
(* Taking a message and reporting it is one step: the senders do not mind     *)
(* when exactly it is taken, queues are never full (QueuesSuffice).           *)
MainRecv ==
  /\ Op("collect")
  /\ \/ /\ BrNodes \in br /\ nq[P.l] = 1 /\ Log(<<"collect", BrNodes>>) /\ nq' = [nq EXCEPT ![P.l] = 0]
        /\ UNCHANGED <<nod, rej, bmp>> /\ Got(BrNodes)
     \/ /\ BrReject \in br /\ rej[P.l] = "result" /\ Log(<<"collect", BrReject>>)
        /\ rej' = [rej EXCEPT ![P.l] = "end"] /\ UNCHANGED <<nod, nq, bmp>> /\ Got(BrReject)
     \/ /\ BrReject \in br /\ rej[P.l] = "nag" /\ Log(<<"collect", BrReject>>)
        /\ rej' = [rej EXCEPT ![P.l] = "nagged"] /\ UNCHANGED <<nod, nq, bmp>>
        /\ prog' = <<I("ev", <<"nag">>, P.l), I("reply", 0, P.l)>> \o prog /\ UNCHANGED <<br, wrote, have>>
     \/ /\ BrBlockmap \in br /\ bmp[P.l] = "result" /\ Log(<<"collect", BrBlockmap>>)
        /\ bmp' = [bmp EXCEPT ![P.l] = "end"] /\ UNCHANGED <<nod, nq, rej>> /\ Got(BrBlockmap)
  /\ UNCHANGED <<c, C, cq, gq>> /\ uBus /\ uCtl /\ uGen
(* the table must be there, and its size right *)
MainReply ==
  /\ Op("reply") /\ rej[P.l] = "nagged" /\ Quiet
  /\ \/ /\ Lv(P.l).rejok /\ C.nag \in {"alone", "any"}      \* the table is copied as it is
        /\ rej' = [rej EXCEPT ![P.l] = "copied"] /\ wrote' = TRUE
        /\ prog' = If(~C.det, LumpsOf(BrReject, P.l)) \o Tail(prog)
     \/ /\ Lv(P.l).rejok /\ C.nag \in {"more", "any"}       \* the table is handed over
        /\ rej' = [rej EXCEPT ![P.l] = "loaded"] /\ prog' = Tail(prog) /\ UNCHANGED wrote
     \/ ~Lv(P.l).rejok /\ rej' = [rej EXCEPT ![P.l] = "refused"] /\ prog' = Tail(prog) /\ UNCHANGED wrote
  /\ UNCHANGED <<c, C, br, have, cq, gq, nod, nq, bmp>> /\ uBus /\ uCtl /\ uGen
MainCollected ==
  /\ Op("collect") /\ br = {} /\ Quiet
  /\ prog' = (IF C.det
              THEN If(BrNodes \in have, LumpsOf(BrNodes, P.l)) \o If(BrReject \in have, LumpsOf(BrReject, P.l))
                   \o If(BrBlockmap \in have, LumpsOf(BrBlockmap, P.l))
              ELSE <<>>) \o Tail(prog)
  /\ UNCHANGED <<c, C, cq, gq>> /\ uCol /\ uBus /\ uCtl /\ uGen /\ uBuild

(* The write bus *)
BusLog == \/ /\ bus[1] = "got" /\ Log(<<"bus", bus[2]>>) /\ bus' = <<"idle">> /\ written' = Append(written, bus[2])
             /\ UNCHANGED <<c, C, cq, gq, closed>> /\ uMain /\ uCol /\ uCtl /\ uGen /\ uBuild
          \/ /\ \/ bus[1] = "gotsync" /\ Log(<<"sync">>) /\ bus' = <<"sync">>
                \/ bus[1] = "idle" /\ closed /\ Log(<<"busdone">>) /\ bus' = <<"fin">>
             /\ UNCHANGED <<c, C, cq, gq, closed, written>> /\ uMain /\ uCol /\ uCtl /\ uGen /\ uBuild

(* Control *)
uNotCtl == UNCHANGED <<c, C>> /\ uMain /\ uCol /\ uBus /\ uGen /\ uBuild
Dying(u) == u[1] \in {NONEED, DONE} /\ u[2] \in {NONEED, DONE}
CtlRecv(l) == /\ ctl[l][1] = "wait" /\ cq[l] # <<>>
              /\ LET s == Head(cq[l])[1]
                     m == Head(cq[l])[2]
                     u == [users[l] EXCEPT ![s + 1] = m]
                 IN /\ Log(<<"control", s, m>>)
                    /\ users' = [users EXCEPT ![l] = u]
                    /\ ctl' = [ctl EXCEPT ![l] = IF m = NEED /\ ~sched[l] THEN <<"generate">>
                                                 ELSE IF Dying(u) THEN <<"done">> ELSE <<"wait">>]
              /\ cq' = [cq EXCEPT ![l] = Tail(@)] /\ UNCHANGED <<gq, sched>> /\ uNotCtl
CtlGenerate(l) == /\ ctl[l][1] = "generate" /\ Len(gq[l]) < CAP /\ Quiet
                  /\ gq' = [gq EXCEPT ![l] = Append(@, <<GENERATE, "">>)]
                  /\ sched' = [sched EXCEPT ![l] = TRUE]
                  /\ ctl' = [ctl EXCEPT ![l] = IF Dying(users[l]) THEN <<"done">> ELSE <<"wait">>]
                  /\ UNCHANGED <<cq, users>> /\ uNotCtl
CtlDone(l) == /\ ctl[l][1] = "done" /\ Log(<<"controldone">>) /\ ctl' = [ctl EXCEPT ![l] = <<"die">>]
              /\ UNCHANGED <<cq, gq, users, sched>> /\ uNotCtl
CtlDie(l) == /\ ctl[l][1] = "die" /\ Len(gq[l]) < CAP /\ Quiet /\ gq' = [gq EXCEPT ![l] = Append(@, <<DIE, "">>)]
             /\ ctl' = [ctl EXCEPT ![l] = <<"end">>] /\ UNCHANGED <<cq, users, sched>> /\ uNotCtl

(* Generator *)
uNotGen == UNCHANGED <<c, C, cq>> /\ uMain /\ uCol /\ uBus /\ uCtl
GenRecv(l) == /\ gen[l][1] = "wait" /\ gq[l] # <<>>
              /\ LET a == Head(gq[l])[1]
                     who == Head(gq[l])[2]
                 IN /\ Log(<<"generator", a>>)
                    /\ gen' = [gen EXCEPT ![l] = IF a = DIE THEN <<"end">>
                                                 ELSE IF made[l] = 0 THEN <<"make", who>>
                                                 ELSE IF a = RETRIEVE THEN <<"reply", who>> ELSE <<"wait">>]
              /\ gq' = [gq EXCEPT ![l] = Tail(@)] /\ UNCHANGED made /\ uBuild /\ uNotGen
GenMake(l) == /\ gen[l][1] = "make" /\ Log(<<"solidmap">>) /\ made' = [made EXCEPT ![l] = @ + 1]
              /\ gen' = [gen EXCEPT ![l] = IF gen[l][2] = "" THEN <<"wait">> ELSE <<"reply", gen[l][2]>>]
              /\ UNCHANGED gq /\ uBuild /\ uNotGen
GenReply(l) == /\ gen[l][1] = "reply" /\ Quiet /\ gen' = [gen EXCEPT ![l] = <<"wait">>]
               /\ \/ gen[l][2] = "nodes" /\ nod[l] = "waiting" /\ nod' = [nod EXCEPT ![l] = "mapped"] /\ UNCHANGED rej
                  \/ gen[l][2] = "reject" /\ rej[l] = "waiting" /\ rej' = [rej EXCEPT ![l] = "mapped"] /\ UNCHANGED nod
               /\ UNCHANGED <<made, gq, nq, bmp>> /\ uNotGen

(* The builders *)
uNotBuild == UNCHANGED <<c, C>> /\ uMain /\ uCol /\ uBus /\ uCtl /\ uGen /\ Quiet
Tell(l, s, m) == Len(cq[l]) < CAP /\ cq' = [cq EXCEPT ![l] = Append(@, <<s, m>>)]
Ask(l, who) == Len(gq[l]) < CAP /\ gq' = [gq EXCEPT ![l] = Append(@, <<RETRIEVE, who>>)]
To(l, s) == nod' = [nod EXCEPT ![l] = s] /\ UNCHANGED <<rej, bmp>>
NodStep(l) ==
  /\ \/ nod[l] = "work" /\ (~C.adv \/ Lv(l).few) /\ Tell(l, NODES, NONEED) /\ To(l, "send") /\ UNCHANGED <<gq, nq>>  \* other partitioner, or too few segs
     \/ nod[l] = "work" /\ C.adv /\ Tell(l, NODES, NEED) /\ To(l, "ask") /\ UNCHANGED <<gq, nq>>
     \/ nod[l] = "ask" /\ Ask(l, "nodes") /\ To(l, "waiting") /\ UNCHANGED <<cq, nq>>
     \/ nod[l] = "mapped" /\ Tell(l, NODES, DONE) /\ To(l, "send") /\ UNCHANGED <<gq, nq>>
     \/ nod[l] = "mapped" /\ C.fallback /\ nq[l] = 0 /\ nq' = [nq EXCEPT ![l] = 1] /\ To(l, "sent") /\ UNCHANGED <<cq, gq>>
     \/ nod[l] = "sent" /\ Tell(l, NODES, DONE) /\ To(l, "end") /\ UNCHANGED <<gq, nq>>
     \/ nod[l] = "send" /\ nq[l] = 0 /\ nq' = [nq EXCEPT ![l] = 1] /\ To(l, "end") /\ UNCHANGED <<cq, gq>>
  /\ uNotBuild
Ro(l, s) == rej' = [rej EXCEPT ![l] = s] /\ UNCHANGED <<nod, nq, bmp>>
RejStep(l) ==
  /\ \/ rej[l] = "work" /\ C.nag # "no" /\ Ro(l, "nag") /\ UNCHANGED <<cq, gq>>
     \/ rej[l] = "work" /\ C.nag \in {"no", "any"} /\ Ro(l, "setup") /\ UNCHANGED <<cq, gq>>
     \/ rej[l] \in {"refused", "loaded"} /\ Ro(l, "setup") /\ UNCHANGED <<cq, gq>>   \* or loaded and the assertions fail
     \/ rej[l] \in {"copied", "loaded"} /\ Tell(l, REJECT, NONEED) /\ Ro(l, "result") /\ UNCHANGED gq
     \/ rej[l] = "setup" /\ Tell(l, REJECT, NONEED) /\ Ro(l, "result") /\ UNCHANGED gq  \* nothing to see through after all
     \/ rej[l] = "setup" /\ Tell(l, REJECT, NEED) /\ Ro(l, "ask") /\ UNCHANGED gq
     \/ rej[l] = "ask" /\ Ask(l, "reject") /\ Ro(l, "waiting") /\ UNCHANGED cq
     \/ rej[l] = "mapped" /\ Tell(l, REJECT, DONE) /\ Ro(l, "result") /\ UNCHANGED gq
  /\ uNotBuild
BmpStep(l) == bmp[l] = "work" /\ bmp' = [bmp EXCEPT ![l] = "result"]
              /\ UNCHANGED <<cq, gq, nod, nq, rej>> /\ uNotBuild

Main == MainEv \/ MainGo \/ MainCtl \/ MainWrite \/ MainSync \/ MainSynced \/ MainClose \/ MainFinish
        \/ MainBranches \/ MainRecv \/ MainReply \/ MainCollected
Level(l) == CtlRecv(l) \/ CtlGenerate(l) \/ CtlDone(l) \/ CtlDie(l)
            \/ GenRecv(l) \/ GenMake(l) \/ GenReply(l)
            \/ NodStep(l) \/ RejStep(l) \/ BmpStep(l)
Bus == BusLog

(* Steps that commute with all steps of the others, and which the others       *)
(* cannot prevent: in reduced form they come first.                           *)
LocalStep == \/ BusLog
             \/ MainEv \/ MainBranches \/ MainWrite \/ MainSync
             \/ \E l \in 1..NL : CtlDone(l) \/ GenMake(l)
(* Likewise when a recorded run is followed, where reported steps come when   *)
(* they were reported.                                                        *)
SilentStep == \/ MainBranches \/ MainWrite \/ MainSync \/ MainSynced \/ MainClose \/ MainFinish \/ MainCollected
              \/ \E l \in 1..NL : GenReply(l) \/ BmpStep(l)
First1 == IF Tracing THEN SilentStep ELSE LocalStep

(* Everything has come to its end *)
Ended == /\ prog = <<>> /\ bus = <<"end">>
         /\ \A l \in 1..NL : /\ ctl[l][1] = "end" /\ gen[l][1] = "end"
                             /\ nod[l] \in {"none", "end"} /\ rej[l] \in {"none", "end"} /\ bmp[l] \in {"none", "end"}
                             /\ cq[l] = <<>> /\ gq[l] = <<>>
Rest == Ended /\ UNCHANGED vars
Next == IF Reduced /\ ENABLED First1 THEN First1
        ELSE Main \/ Bus \/ (\E l \in 1..NL : Level(l)) \/ Rest
Fair == WF_vars(Next)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair

---------------------------------------------------------------------------
(* What must hold *)
Expected(k) == UNION {(IF d.raw THEN {d.i} ELSE {})
                      \cup {d.lumps[j].i : j \in {j \in 1..Len(d.lumps) : ~(d.lumps[j].n = "REJECT" /\ k.rej = "zero")}}
                      : d \in {k.dir[i] : i \in 1..Len(k.dir)}}
Once == \A i, j \in 1..Len(written) : i # j => written[i] # written[j]
AllWritten == prog = <<>> => {written[i] : i \in 1..Len(written)} = Expected(C)
(* No more messages than fit in the queues are ever sent *)
QueuesSuffice == \A l \in 1..NL :
  /\ Len(cq[l]) = CAP => /\ nod[l] \in {"none", "send", "end"} /\ rej[l] \in {"none", "result", "end"}
                         /\ \A j \in 1..Len(prog) : ~(prog[j].op = "ctl" /\ prog[j].l = l)
  /\ Len(gq[l]) = CAP => ctl[l][1] = "end" /\ nod[l] # "ask" /\ rej[l] # "ask"
SolidOnce == \A l \in 1..NL : made[l] <= 1
SolidIfNeeded == \A l \in 1..NL : made[l] = 1 =>
                   \/ users[l][1] \in {NEED, DONE} \/ users[l][2] \in {NEED, DONE}
                   \/ (nod[l] # "none" /\ C.adv) \/ rej[l] # "none"
(* When main comes to a level, all lumps of the levels before are in the file *)
LevelByLevel ==
  (prog # <<>> /\ P.op = "ev" /\ P.a[1] = "level") =>
     \A l \in 1..NL : l < P.l => \A j \in 1..Len(Lv(l).lumps) :
        (Lv(l).lumps[j].n = "REJECT" /\ C.rej = "zero") \/ \E i \in 1..Len(written) : written[i] = Lv(l).lumps[j].i
(* In deterministic mode lumps of a level come in one order only *)
InOrder == C.det => \A l \in 1..NL :
             LET w == SelectSeq(written, LAMBDA i : i \in {Idx(Lv(l), n) : n \in {"LINEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"}})
                 order == If(C.nodes /\ NodAt(C, Lv(l)) # 0, [j \in 1..5 |-> NodeLumps(Lv(l), l)[j].a])
                          \o If(RejAt(C, Lv(l)) # 0, <<Idx(Lv(l), "REJECT")>>) \o If(C.bm, <<Idx(Lv(l), "BLOCKMAP")>>)
                 got == SelectSeq(w, LAMBDA i : i \in {order[j] : j \in 1..Len(order)})
             IN got = SubSeq(order, 1, Len(got))
Terminates == <>Ended
(* Lumps recorded against those of a run without trace points and delays *)
Same == prog = <<>> => \A i \in 1..Len(C.lumps) : C.lumps[i].got = C.lumps[i].want
(* A table that was asked for and taken as it is stays what it was *)
Copied == (prog = <<>> /\ C.nag = "alone") => \A l \in 1..NL :
            (RejAt(C, Lv(l)) # 0 /\ Lv(l).rejok) => Lv(l).rejgot = Lv(l).rejwas
(* For recorded runs: this one is a behaviour of the specification *)
Accepted == (Ended /\ tr = <<>>) => PrintT(<<"VV-OK", c>>)
Reached == PrintT(<<"VV-AT", ti>>)
=============================================================================
