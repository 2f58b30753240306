----------------------------- MODULE OffsetHive -----------------------------
(* The search for a blockmap offset.  Bees share out the offsets 1..K (bee b  *)
(* takes b, b + n, ...), build a blockmap for each, and offer to the hive     *)
(* what is better than all they have offered before.  When a goal was set     *)
(* (e) and is reached, the hive calls the search off.  In deterministic mode  *)
(* it then goes through offsets that nobody came to (holes), for the result   *)
(* must be that of trying the offsets one by one.                             *)
(*                                                                           *)
(* Blockmaps lie in three slots that a bee uses in turn while the hive still  *)
(* reads what was given to it.                                                *)
(*                                                                           *)
(* A case gives for each offset the class of its blockmap (0 fits the         *)
(* original engine, 1 fits ports, 2 fits nothing), its size, and whether the  *)
(* dummy line is other than zero where that counts (nz), and whether the      *)
(* offset is skipped.  When a recorded run is followed, sizes of class 2 are  *)
(* unknown, for such blockmaps are never written.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cases, Tracing
VARIABLES c, C, tr,
          pos, st, mine, tried, slot,        \* of each bee
          best, bslot, hv, goal, open, phase, marked, at, res  \* of the hive
vars == <<c, C, tr, pos, st, mine, tried, slot, best, bslot, hv, goal, open, phase, marked, at, res>>
bee == <<pos, st, mine, tried, slot>>
hive == <<best, bslot, hv, goal, open, phase, marked, at, res>>

Bees == 1..C.n
K == Len(C.val)
V(k) == C.val[k]
Sieve == C.det /\ C.n > 1 /\ C.e # 0
Good(k) == CASE C.e = 1 -> V(k).cls = 0 [] C.e = 2 -> V(k).cls < 2 [] OTHER -> FALSE
Better(k, b) ==
  \/ V(k).cls < V(b).cls
  \/ /\ V(k).cls = V(b).cls
     /\ \/ V(k).size < V(b).size
        \/ V(k).size = V(b).size /\ V(k).nz < V(b).nz
        \/ V(k).size = V(b).size /\ V(k).nz = V(b).nz /\ C.det /\ k < b
Unknown(k, b) == Tracing /\ V(k).cls = 2 /\ V(b).cls = 2
(* does a bee whose best is b offer k?  TRUE, FALSE or both *)
Offers(k, b) == IF b = 0 THEN {TRUE}
                ELSE IF Sieve THEN (IF Good(b) THEN {FALSE} ELSE IF Good(k) THEN {TRUE}
                                    ELSE IF Unknown(k, b) THEN {TRUE, FALSE} ELSE {Better(k, b)})
                ELSE IF Unknown(k, b) THEN {TRUE, FALSE} ELSE {Better(k, b)}
(* does the hive take k instead of b? *)
Takes(k, b) == IF b = 0 THEN {TRUE}
               ELSE IF ~Sieve THEN (IF Unknown(k, b) THEN {TRUE, FALSE} ELSE {Better(k, b)})
               ELSE IF k < b /\ Good(k) THEN {TRUE}
               ELSE IF Good(b) THEN {FALSE}
               ELSE IF Unknown(k, b) THEN {TRUE, FALSE} ELSE {Better(k, b)}

Init ==
  /\ c \in 1..Len(Cases)
  /\ C = Cases[c] /\ tr = (IF Tracing THEN Cases[c].trace ELSE <<>>)
  /\ pos = [b \in Bees |-> b] /\ st = [b \in Bees |-> "work"] /\ mine = [b \in Bees |-> 0]
  /\ tried = [b \in Bees |-> {}]
  /\ slot = [b \in Bees |-> [i \in 1..3 |-> [is |-> "unused", k |-> 0]]]
  /\ best = 0 /\ bslot = <<0, 0>> /\ hv = <<>> /\ goal = FALSE /\ open = Bees
  /\ phase = "collect" /\ marked = {} /\ at = 1 /\ res = 0

(* Bees *)
Free(b) == CHOOSE i \in 1..3 : slot[b][i].is = "unused" /\ \A j \in 1..(i - 1) : slot[b][j].is # "unused"
Rotate(s, i) == [j \in 1..3 |-> IF j = i THEN [s[j] EXCEPT !.is = "new"]
                                ELSE IF s[j].is = "new" THEN [s[j] EXCEPT !.is = "old"]
                                ELSE IF s[j].is = "old" THEN [s[j] EXCEPT !.is = "unused"] ELSE s[j]]
(* one offset *)
Work(b) ==
  /\ ~Tracing /\ st[b] = "work" /\ pos[b] <= K /\ ~goal
  /\ LET k == pos[b] IN
     IF V(k).skip
     THEN /\ tried' \in {tried, [tried EXCEPT ![b] = @ \cup {k}]}   \* offsets that follow in its row are passed over
          /\ pos' = [pos EXCEPT ![b] = @ + C.n] /\ UNCHANGED <<st, mine, slot>>
     ELSE LET i == Free(b)
              s == [slot[b] EXCEPT ![i].k = k]
          IN /\ tried' = [tried EXCEPT ![b] = @ \cup {k}]
             /\ pos' = [pos EXCEPT ![b] = @ + C.n]
             /\ \E o \in Offers(k, mine[b]) :
                  IF o THEN /\ st' = [st EXCEPT ![b] = "offer"] /\ mine' = [mine EXCEPT ![b] = k]
                            /\ slot' = [slot EXCEPT ![b] = Rotate(s, i)]
                  ELSE slot' = [slot EXCEPT ![b] = s] /\ UNCHANGED <<st, mine>>
  /\ UNCHANGED <<c, C, tr>> /\ UNCHANGED hive
(* When a run is followed, all offsets up to the next that is offered, and    *)
(* its delivery                                                               *)
Path(b, q) == {k \in pos[b]..q : k % C.n = b % C.n /\ ~V(k).skip}
Offered(b) ==
  /\ Tracing /\ phase = "collect" /\ hv = <<>> /\ st[b] = "work" /\ (~goal \/ Sieve)
  /\ tr # <<>> /\ tr[1] \in Path(b, K)
  /\ LET q == tr[1] IN
       /\ \A k \in Path(b, q - 1) : FALSE \in Offers(k, mine[b])
       /\ tried' = [tried EXCEPT ![b] = @ \cup Path(b, q)]
       /\ pos' = [pos EXCEPT ![b] = q + C.n] /\ mine' = [mine EXCEPT ![b] = q]
       /\ hv' = <<q, b, 0>>
  /\ tr' = Tail(tr)
  /\ UNCHANGED <<c, C, st, slot, best, bslot, goal, open, phase, marked, at, res>>
Close(b) == /\ st' = [st EXCEPT ![b] = "closed"]
            /\ UNCHANGED <<c, C, tr, pos, mine, slot>> /\ UNCHANGED hive
Stop(b) == \* all done, or called off
  /\ st[b] = "work"
  /\ IF Tracing
     THEN /\ tr = <<>> /\ hv = <<>> /\ \A x \in 1..(b - 1) : st[x] # "work"
          /\ IF goal THEN UNCHANGED tried      \* it may also have gone on a while
             ELSE /\ \A k \in Path(b, K) : FALSE \in Offers(k, mine[b])
                  /\ tried' = [tried EXCEPT ![b] = @ \cup Path(b, K)]
     ELSE (pos[b] > K \/ goal) /\ UNCHANGED tried
  /\ Close(b)
GiveUp(b) == /\ st[b] = "offer" /\ ~Sieve /\ goal /\ UNCHANGED tried /\ Close(b)

(* The hive *)
Deliver(b) ==
  /\ phase = "collect" /\ hv = <<>> /\ st[b] = "offer"
  /\ LET s == CHOOSE i \in 1..3 : slot[b][i].is = "new"
     IN hv' = IF ~goal \/ Sieve THEN <<mine[b], b, s>> ELSE hv
  /\ st' = [st EXCEPT ![b] = "work"]
  /\ UNCHANGED <<c, C, tr, pos, mine, tried, slot, best, bslot, goal, open, phase, marked, at, res>>
Take ==
  /\ hv # <<>>
  /\ \E t \in Takes(hv[1], best) :
       /\ best' = IF t THEN hv[1] ELSE best
       /\ bslot' = IF t THEN <<hv[2], hv[3]>> ELSE bslot
       /\ goal' = (goal \/ Good(IF t THEN hv[1] ELSE best))
  /\ hv' = <<>>
  /\ UNCHANGED <<c, C, tr, open, phase, marked, at, res>> /\ UNCHANGED bee
Closed(b) ==
  /\ phase = "collect" /\ hv = <<>> /\ st[b] = "closed" /\ b \in open
  /\ Tracing => \A x \in 1..C.n : st[x] # "work" /\ (x < b => x \notin open)
  /\ open' = open \ {b}
  /\ st' = IF Sieve THEN st ELSE [st EXCEPT ![b] = "end"]
  /\ phase' = IF open' = {} THEN (IF Sieve THEN "gather" ELSE "settle") ELSE "collect"
  /\ UNCHANGED <<c, C, tr, pos, mine, tried, slot, best, bslot, hv, goal, marked, at, res>>
Gather(b) ==
  /\ phase = "gather" /\ st[b] = "closed" /\ (Tracing => \A x \in 1..(b - 1) : st[x] = "end")
  /\ st' = [st EXCEPT ![b] = "end"]
  /\ marked' = IF goal THEN marked \cup tried[b] ELSE marked
  /\ phase' = IF \A x \in Bees : st'[x] = "end" THEN "settle" ELSE "gather"
  /\ UNCHANGED <<c, C, tr, pos, mine, tried, slot, best, bslot, hv, goal, open, at, res>>
Chase == /\ phase = "settle" /\ Sieve /\ goal /\ at < best
         /\ IF at \notin marked /\ ~V(at).skip /\ Good(at)
            THEN res' = at /\ phase' = "end" /\ UNCHANGED at
            ELSE at' = at + 1 /\ UNCHANGED <<res, phase>>
         /\ UNCHANGED <<c, C, tr, best, bslot, hv, goal, open, marked>> /\ UNCHANGED bee
Settle == /\ phase = "settle" /\ (~Sieve \/ ~goal \/ at = best)
          /\ res' = best /\ phase' = "end"
          /\ UNCHANGED <<c, C, tr, best, bslot, hv, goal, open, marked, at>> /\ UNCHANGED bee
Rest == phase = "end" /\ UNCHANGED vars
Next == \/ \E b \in Bees : Work(b) \/ Offered(b) \/ Stop(b) \/ GiveUp(b) \/ Deliver(b) \/ Closed(b) \/ Gather(b)
        \/ Take \/ Chase \/ Settle \/ Rest
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)

---------------------------------------------------------------------------
(* One offset after the other, without bees *)
Real == {k \in 1..K : ~V(k).skip}
OneByOne == LET G == {k \in Real : Good(k)}
                First(S) == CHOOSE k \in S : \A j \in S : k <= j
            IN IF G # {} THEN First(G) ELSE First({k \in Real : \A j \in Real \ {k} : ~Better(j, k)})
Deterministic == (phase = "end" /\ C.det) => res = OneByOne
AsGood == phase = "end" => \/ Good(res)
                           \/ /\ \A k \in Real : ~Good(k)
                              /\ \A k \in Real : \/ V(k).cls > V(res).cls
                                                 \/ V(k).cls = V(res).cls /\ V(k).size >= V(res).size
NotTwice == \A a, b \in Bees : a # b => tried[a] \cap tried[b] = {}
(* nothing that the hive still holds is overwritten *)
Kept == /\ best # 0 => slot[bslot[1]][bslot[2]].k = best
        /\ hv # <<>> => slot[hv[2]][hv[3]].k = hv[1]
SlotThere == \A b \in Bees : \E i \in 1..3 : slot[b][i].is = "unused"
Terminates == <>(phase = "end")
Accepted == (phase = "end" /\ tr = <<>> /\ \E i \in 1..Len(C.final) : C.final[i] = res) => PrintT(<<"VV-OK", c>>)
Reached == PrintT(<<"VV-AT", Len(tr)>>)
=============================================================================
