-------------------------------- MODULE Cli ---------------------------------
(* The command line: how arguments are read, character by character, into    *)
(* the settings of a run, and which settings each part of the output depends *)
(* on.  Recorded runs with the same settings for a part must agree on that   *)
(* part, whatever the order, grouping and repetition of their arguments and  *)
(* whatever the settings for the other parts.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, par, key, tel, bad      \* the case; what its command lines mean; what each part depends on; settings that show
vars == <<c, par, key, tel, bad>>
C == Cases[c]
Runs == C.runs

Digits == {"0","1","2","3","4","5","6","7","8","9"}
DigitVal == [x \in Digits |-> CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "4" -> 4
                                [] x = "5" -> 5 [] x = "6" -> 6 [] x = "7" -> 7 [] x = "8" -> 8 [] x = "9" -> 9]
From(s, k) == SubSeq(s, k, Len(s))
At(s, k) == IF k <= Len(s) THEN s[k] ELSE ""
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

RECURSIVE NDigits(_)
NDigits(s) == IF Len(s) = 0 \/ s[1] \notin Digits THEN 0 ELSE 1 + NDigits(Tail(s))
RECURSIVE ValOf(_, _)
ValOf(s, acc) == IF Len(s) = 0 THEN acc ELSE ValOf(Tail(s), 10 * acc + DigitVal[s[1]])
(* "on", "off", "num" or "err" (then the rest of the argument is lost) *)
Numeric(s) ==
    IF Len(s) = 0 THEN [k |-> "on", v |-> 0, rest |-> s]
    ELSE IF s[1] = "+" THEN [k |-> "on", v |-> 0, rest |-> Tail(s)]
    ELSE IF s[1] = "-" THEN [k |-> "off", v |-> 0, rest |-> Tail(s)]
    ELSE IF s[1] # "=" THEN [k |-> "on", v |-> 0, rest |-> s]
    ELSE LET n == NDigits(Tail(s))
         IN IF n = 0 \/ n > 18 THEN [k |-> "err", v |-> 0, rest |-> <<>>]
            ELSE [k |-> "num", v |-> IF n > 8 THEN 99999999 ELSE ValOf(SubSeq(s, 2, n + 1), 0), rest |-> From(s, n + 2)]
Enabled(s) == IF Len(s) = 0 THEN [on |-> TRUE, rest |-> s]
              ELSE IF s[1] = "+" THEN [on |-> TRUE, rest |-> Tail(s)]
              ELSE IF s[1] = "-" THEN [on |-> FALSE, rest |-> Tail(s)]
              ELSE [on |-> TRUE, rest |-> s]

Start == [inp |-> <<>>, out |-> <<>>, stop |-> FALSE, rep |-> FALSE, expect |-> "", outused |-> FALSE,
          eject |-> FALSE, filter |-> "none", maps |-> {}, det |-> FALSE, hash |-> FALSE,
          b |-> [on |-> TRUE, mode |-> 2, x |-> 0, y |-> 0, z |-> 1, e |-> 0, s |-> FALSE, a |-> FALSE, sq |-> FALSE, aq |-> FALSE, r |-> FALSE],
          n |-> [on |-> TRUE, a |-> 0, p |-> 9, i |-> 0, c |-> "v", lvl |-> 6, f |-> 17, dm |-> "hexen", dv |-> 34, m |-> 0,
                 w |-> 0, reach |-> 10, stk |-> FALSE, roots |-> 0, rootsw |-> FALSE, unrev |-> FALSE, detail |-> 0, able |-> FALSE, zen |-> <<>>],
          r |-> [on |-> TRUE, z |-> FALSE, g |-> TRUE, m |-> FALSE, s |-> 0]]
Stop(q) == [q EXCEPT !.stop = TRUE]
Rep(q) == [q EXCEPT !.rep = TRUE]
RepIf(q, y) == IF y THEN Rep(q) ELSE q

-----------------------------------------------------------------------------
RECURSIVE BlockOpts(_, _)
BlockOpts(q, s) ==
    IF Len(s) = 0 THEN q
    ELSE CASE s[1] = "s" ->
             IF At(s, 2) = "?" THEN BlockOpts([q EXCEPT !.b.sq = TRUE], From(s, 3))
             ELSE LET t == Enabled(Tail(s)) IN BlockOpts([q EXCEPT !.b.s = t.on \/ q.b.a], t.rest)
         [] s[1] = "a" ->
             IF At(s, 2) = "?" THEN BlockOpts([q EXCEPT !.b.aq = TRUE], From(s, 3))
             ELSE LET t == Enabled(Tail(s)) IN BlockOpts([q EXCEPT !.b.a = t.on, !.b.s = q.b.s \/ t.on], t.rest)
         [] s[1] = "z" ->
             LET t == Numeric(Tail(s))
                 v == CASE t.k = "off" -> 0 [] t.k = "num" -> t.v [] OTHER -> 1
             IN BlockOpts(RepIf([q EXCEPT !.b.z = IF v > 2 THEN 1 ELSE v], t.k = "err" \/ v > 2), t.rest)
         [] s[1] = "t" ->
             LET t == Numeric(Tail(s)) IN BlockOpts(RepIf(q, t.k = "err"), t.rest)
         [] s[1] = "e" ->
             LET t == Numeric(Tail(s))
                 v == CASE t.k = "off" -> 0 [] t.k = "num" -> t.v [] OTHER -> 1
             IN BlockOpts(RepIf([q EXCEPT !.b.e = IF v > 2 THEN 2 ELSE v], t.k = "err" \/ v > 2), t.rest)
         [] s[1] = "o" ->
             LET t == Numeric(Tail(s))
                 v == CASE t.k = "off" -> 0 [] t.k = "num" -> t.v [] OTHER -> 2
             IN IF t.k = "num" /\ At(t.rest, 1) = ","
                THEN LET k == NDigits(Tail(t.rest))
                         y == IF k = 0 THEN 0 ELSE IF k > 8 THEN 99999999 ELSE ValOf(SubSeq(t.rest, 2, k + 1), 0)
                         ok == k > 0 /\ v <= 32767 /\ y <= 32767
                     IN BlockOpts(IF ok THEN [q EXCEPT !.b.mode = 9, !.b.x = v, !.b.y = y] ELSE Rep(q), From(t.rest, k + 2))
                ELSE BlockOpts(RepIf(CASE v = 0 -> [q EXCEPT !.b.mode = 9, !.b.x = 0, !.b.y = 0]
                                       [] v = 1 -> [q EXCEPT !.b.mode = 9, !.b.x = 8, !.b.y = 8]
                                       [] v \in 2..4 -> [q EXCEPT !.b.mode = v]
                                       [] OTHER -> Rep(q), t.k = "err"), t.rest)
         [] s[1] = "r" -> LET t == Enabled(Tail(s)) IN BlockOpts([q EXCEPT !.b.r = t.on], t.rest)
         [] OTHER -> Rep(q)

Formats == {"v", "d", "x", "z", "V", "D", "X", "Z"}
RECURSIVE NodeOpts(_, _)
NodeOpts(q, s) ==
    IF Len(s) = 0 THEN q
    ELSE LET t == Numeric(Tail(s))
             e == t.k = "err"
         IN CASE s[1] = "a" -> NodeOpts(IF t.k = "num" /\ t.v <= 4 THEN [q EXCEPT !.n.a = t.v] ELSE Rep(q), t.rest)
              [] s[1] = "p" -> NodeOpts(IF t.k = "num" /\ t.v <= 2 THEN [q EXCEPT !.n.p = t.v] ELSE Rep(q), t.rest)
              [] s[1] = "i" -> LET v == CASE t.k = "off" -> 0 [] t.k = "num" -> t.v [] OTHER -> 2
                               IN NodeOpts(RepIf(IF v <= 2 THEN [q EXCEPT !.n.i = v] ELSE Rep(q), e), t.rest)
              [] s[1] = "c" ->
                   IF At(s, 2) = "=" /\ At(s, 3) \in Formats
                   THEN LET q1 == [q EXCEPT !.n.c = s[3]]
                            r == From(s, 4)
                        IN IF s[3] \notin {"z", "Z"} \/ Len(r) = 0 THEN NodeOpts(q1, r)
                           ELSE IF r[1] \in {"+", "-"} /\ (Len(r) = 1 \/ r[2] \notin Digits) THEN NodeOpts(Rep(q1), r)
                           ELSE LET sg == IF r[1] \in {"+", "-"} THEN 1 ELSE 0
                                    k == NDigits(From(r, sg + 1))
                                    v == IF k = 0 THEN 0 ELSE IF k > 8 THEN 99999999 ELSE ValOf(SubSeq(r, sg + 1, sg + k), 0)
                                    w == IF sg = 1 /\ r[1] = "-" THEN -v ELSE v
                                IN IF k = 0 THEN NodeOpts(q1, r)
                                   ELSE NodeOpts(IF w \in -2..9 THEN [q1 EXCEPT !.n.lvl = w] ELSE Rep(q1), From(r, sg + k + 1))
                   ELSE NodeOpts(Rep(q), From(s, 4))
              [] s[1] = "f" -> NodeOpts(IF t.k = "num" /\ t.v > 0 THEN [q EXCEPT !.n.f = t.v] ELSE Rep(q), t.rest)
              [] s[1] = "d" -> NodeOpts(RepIf(CASE t.k = "off" -> [q EXCEPT !.n.dm = "never"]
                                                [] t.k = "num" -> [q EXCEPT !.n.dm = IF t.v > 0 THEN "always" ELSE "never", !.n.dv = t.v]
                                                [] OTHER -> [q EXCEPT !.n.dm = "always"], e), t.rest)
              [] s[1] = "m" -> NodeOpts(RepIf(IF t.v <= 3 THEN [q EXCEPT !.n.m = t.v] ELSE Rep(q), e), t.rest)
              [] s[1] = "t" -> NodeOpts(RepIf(q, e), t.rest)
              [] s[1] = "w" -> NodeOpts(IF t.k = "num" /\ t.v # 1 THEN [q EXCEPT !.n.w = t.v] ELSE Rep(q), t.rest)
              [] s[1] = "r" -> NodeOpts(IF t.k = "num" /\ t.v >= 1 THEN [q EXCEPT !.n.reach = t.v] ELSE Rep(q), t.rest)
              [] OTHER -> Rep(q)

RECURSIVE RejectOpts(_, _)
RejectOpts(q, s) ==
    IF Len(s) = 0 THEN q
    ELSE CASE s[1] = "z" -> LET t == Enabled(Tail(s)) IN RejectOpts([q EXCEPT !.r.z = t.on], t.rest)
           [] s[1] = "g" -> LET t == Enabled(Tail(s)) IN RejectOpts([q EXCEPT !.r.g = t.on], t.rest)
           [] s[1] = "m" -> LET t == Enabled(Tail(s)) IN RejectOpts([q EXCEPT !.r.m = t.on], t.rest)
           [] s[1] = "s" -> LET t == Numeric(Tail(s))
                                v == CASE t.k = "off" -> 0 [] t.k = "num" -> t.v [] OTHER -> 1
                            IN RejectOpts(RepIf(IF v <= 3 THEN [q EXCEPT !.r.s = v] ELSE Rep(q), t.k = "err"), t.rest)
           [] OTHER -> Rep(q)

-----------------------------------------------------------------------------
RECURSIVE Split(_, _, _)
Split(s, sep, cur) == IF Len(s) = 0 THEN <<cur>>
                      ELSE IF s[1] = sep THEN <<cur>> \o Split(Tail(s), sep, <<>>)
                      ELSE Split(Tail(s), sep, Append(cur, s[1]))
Upper == [x \in {"m","a","p","e"} |-> CASE x = "m" -> "M" [] x = "a" -> "A" [] x = "p" -> "P" [] x = "e" -> "E"]
Up(s) == [i \in 1..Len(s) |-> IF s[i] \in DOMAIN Upper THEN Upper[s[i]] ELSE s[i]]
IsLevel(s) == \/ Len(s) = 5 /\ SubSeq(s, 1, 3) = <<"M","A","P">> /\ s[4] \in Digits /\ s[5] \in Digits
              \/ /\ Len(s) \in {4, 5} /\ s[1] = "E" /\ s[2] \in Digits \ {"0"} /\ s[3] = "M" /\ s[4] \in Digits
                 /\ (Len(s) = 5 => s[5] \in Digits)
MapList(q, s, how) ==
    IF q.filter # "none" \/ At(s, 1) # ":" THEN Stop(q)
    ELSE LET l == Split(Tail(s), "+", <<>>)
             ms == [i \in 1..Len(l) |-> Up(l[i])]
         IN IF Len(s) = 1 THEN [q EXCEPT !.filter = how]
            ELSE IF \A i \in 1..Len(ms) : IsLevel(ms[i])
            THEN [q EXCEPT !.filter = how, !.maps = {ms[i] : i \in 1..Len(ms)}] ELSE Stop(q)

ZenKeys == {<<x, y>> : x \in {"x","X","y","Y"}, y \in {"1","2","3","4"}}
ZenOne(p) == LET kv == Split(p, "=", <<>>)
                 v == IF Len(kv) = 2 THEN kv[2] ELSE <<>>
                 d == IF Len(v) > 0 /\ v[1] \in {"+", "-"} THEN Tail(v) ELSE v
             IN [ok |-> Len(kv) = 2 /\ kv[1] \in ZenKeys /\ Len(d) > 0 /\ NDigits(d) = Len(d), key |-> IF Len(kv) = 2 THEN kv[1] ELSE <<>>, v |-> v]
Zen(q, s) == LET l == Split(s, ",", <<>>)
             IN IF Len(s) >= 2 /\ \A i \in 1..Len(l) : ZenOne(l[i]).ok
                THEN [q EXCEPT !.n.zen = q.n.zen \o [i \in 1..Len(l) |-> ZenOne(l[i])]] ELSE Stop(q)

(* words that take -, + or =number and nothing after it *)
Word(name, s) == Starts(s, name)
LongNum(q, name, s, max) == LET t == Numeric(From(s, Len(name) + 1))
                            IN [bad |-> Len(t.rest) > 0 \/ (t.k = "num" /\ t.v > max), k |-> t.k, v |-> t.v]
W == C.words        \* the words of the program as sequences of characters
Long(q, s) ==
    CASE s = W.cpuprofile -> [q EXCEPT !.expect = "prof"]
      [] s = W.memprofile -> [q EXCEPT !.expect = "prof"]
      [] s = W.unreversenodes -> [q EXCEPT !.n.unrev = TRUE]
      [] s = W.disableudmf -> q
      [] s = W.hashlump -> [q EXCEPT !.hash = TRUE]
      [] s = W.eject -> [q EXCEPT !.eject = TRUE]
      [] s = W.ableist -> [q EXCEPT !.n.able = TRUE]
      [] s = W.nosymm -> q
      [] Word(W.detailnodes, s) -> LET t == LongNum(q, W.detailnodes, s, 3)
           IN IF t.bad THEN Stop(q) ELSE RepIf([q EXCEPT !.n.detail = CASE t.k = "off" -> 1 [] t.k = "num" -> t.v [] OTHER -> 2], t.k = "err")
      [] Word(W.sidecache, s) -> LET t == LongNum(q, W.sidecache, s, 2) IN IF t.bad THEN Stop(q) ELSE RepIf(q, t.k = "err")
      [] Word(W.stknode, s) -> LET t == LongNum(q, W.stknode, s, 1)
           IN IF t.bad THEN Stop(q) ELSE RepIf([q EXCEPT !.n.stk = (t.k = "num" /\ t.v = 1) \/ t.k \in {"on", "err"}], t.k = "err")
      [] Word(W.speedtree, s) -> LET t == LongNum(q, W.speedtree, s, 1) IN IF t.bad THEN Stop(q) ELSE RepIf(q, t.k = "err")
      [] Word(W.roots, s) -> LET t == LongNum(q, W.roots, s, 99999999)
           IN IF t.bad THEN Stop(q) ELSE RepIf([q EXCEPT !.n.roots = IF t.k = "num" THEN t.v ELSE 0, !.n.rootsw = t.k \in {"on", "err"}], t.k = "err")
      [] Word(W.zenvar, s) -> IF Starts(s, Append(W.zenvar, ":")) THEN Zen(q, From(s, Len(W.zenvar) + 2)) ELSE Stop(q)
      [] OTHER -> Stop(q)

RECURSIVE Vs(_)
Vs(s) == IF Len(s) > 0 /\ s[1] = "v" THEN Vs(Tail(s)) ELSE s
One(q, s) ==
    IF q.expect = "out" THEN IF Len(s) = 0 THEN Stop(q) ELSE [q EXCEPT !.out = s, !.expect = ""]
    ELSE IF q.expect = "prof" THEN IF Len(s) = 0 THEN Stop(q) ELSE [q EXCEPT !.expect = ""]
    ELSE IF Len(s) = 0 THEN Stop(q)
    ELSE IF s[1] # "-" THEN IF q.inp # <<>> THEN Stop(q) ELSE [q EXCEPT !.inp = s]
    ELSE IF Len(s) = 1 THEN Stop(q)
    ELSE LET r == From(s, 3)
             t == Enabled(r)
         IN CASE s[2] = "b" -> LET q1 == [q EXCEPT !.b.on = t.on] IN IF t.on THEN BlockOpts(q1, t.rest) ELSE RepIf(q1, Len(t.rest) > 0)
              [] s[2] = "n" -> LET q1 == [q EXCEPT !.n.on = t.on] IN IF t.on THEN NodeOpts(q1, t.rest) ELSE RepIf(q1, Len(t.rest) > 0)
              [] s[2] = "r" -> LET q1 == [q EXCEPT !.r.on = q.r.on /\ t.on] IN IF q1.r.on THEN RejectOpts(q1, t.rest) ELSE RepIf(q1, Len(t.rest) > 0)
              [] s[2] = "d" -> RepIf([q EXCEPT !.det = t.on], Len(t.rest) > 0)
              [] s[2] = "v" -> RepIf(q, Len(Vs(Tail(s))) > 0)
              [] s[2] = "o" -> IF Len(s) > 2 \/ q.outused THEN Stop(q) ELSE [q EXCEPT !.expect = "out", !.outused = TRUE]
              [] s[2] = "m" -> MapList(q, r, "only")
              [] s[2] = "!" -> IF At(s, 3) = "m" THEN MapList(q, From(s, 4), "not") ELSE Stop(q)
              [] s[2] = "-" -> Long(q, s)
              [] OTHER -> Stop(q)
RECURSIVE Args(_, _)
Args(q, l) == IF q.stop \/ Len(l) = 0 THEN q ELSE Args(One(q, l[1]), Tail(l))
Parse(l) == LET q == Args(Start, l)
            IN IF q.stop \/ q.expect # "" \/ (q.eject /\ q.out = <<>>) THEN Stop(q) ELSE q

-----------------------------------------------------------------------------
(* what each part of the output depends on *)
KeyB(q) == IF ~q.b.on THEN <<"kept">>
           ELSE <<"made", q.b.mode, IF q.b.mode = 9 THEN <<q.b.x, q.b.y>> ELSE <<>>, q.b.z, IF q.b.mode = 9 THEN 0 ELSE q.b.e, q.b.s, q.b.a, q.b.sq, q.b.aq, q.b.r>>
Prio(q) == IF q.n.p # 9 THEN q.n.p ELSE IF q.n.a = 4 THEN 2 ELSE 0
KeyN(q) == IF ~q.n.on THEN <<"kept">>
           ELSE <<"made", q.n.a, Prio(q), q.n.i, IF q.n.m = 0 /\ q.n.c = "V" THEN "v" ELSE q.n.c, IF q.n.c \in {"z", "Z"} THEN q.n.lvl ELSE 6, q.n.f,
                  q.n.dm, IF q.n.dm = "always" THEN q.n.dv ELSE 0, q.n.m,
                  IF q.n.m > 0 THEN <<q.n.roots, q.n.rootsw, IF q.n.rootsw THEN q.n.w ELSE 0, q.n.able>> ELSE <<>>,
                  IF q.n.stk THEN <<q.n.w, q.n.reach>> ELSE <<>>, q.n.unrev, q.n.detail, IF q.n.a = 4 THEN q.n.zen ELSE <<>>>>
KeyR(q) == IF ~q.r.on THEN <<"kept">> ELSE IF q.r.z THEN <<"zero">> ELSE <<"made", q.r.g, q.r.s, q.r.m>>

Chosen(q, m) == CASE q.filter = "none" \/ q.maps = {} -> TRUE
                  [] q.filter = "only" -> m \in q.maps
                  [] OTHER -> m \notin q.maps

P == par
Keys(q) == [b |-> KeyB(q), n |-> KeyN(q), r |-> KeyR(q)]
Maps == C.maps           \* [name (characters), fb, fn, fr (the parts as they are in the input), x, y (origin of the blockmap without offset)]
Outcome(q) == IF q.stop THEN "refuse" ELSE IF q.inp = <<>> THEN "help"
              ELSE IF q.inp # C.input THEN "refuse"       \* there is no such file
              ELSE IF \A j \in 1..Len(Maps) : ~Chosen(q, Maps[j].name) THEN "refuse" ELSE "run"

(* one run by itself.  r.target: "in", "out" or "none": which archive the run changed or made *)
Fits(q) == q.n.c \in {"v", "V", "D", "X", "Z"}
Part(q, r, j) ==
    LET o == r.maps[j]
        m == Maps[j]
        gone == q.eject /\ ~Chosen(q, m.name)
    IN IF gone THEN (IF o.there THEN {<<"notejected", j>>} ELSE {})
       ELSE IF ~o.there THEN {<<"missing", j>>}
       ELSE IF ~Chosen(q, m.name) THEN (IF o.b = m.fb /\ o.n = m.fn /\ o.r = m.fr THEN {} ELSE {<<"notcopied", j>>})
       ELSE UNION {
         IF KeyB(q) = <<"kept">> THEN (IF o.b = m.fb THEN {} ELSE {<<"blockmap-touched", j>>})
         ELSE IF o.b = m.fb THEN {<<"blockmap-notmade", j>>}
         ELSE IF q.b.mode = 9 /\ o.origin # <<m.x - q.b.x, m.y - q.b.y>> THEN {<<"offset", j, o.origin, q.b.x, q.b.y>>} ELSE {},
         IF KeyN(q) = <<"kept">> THEN (IF o.n = m.fn THEN {} ELSE {<<"nodes-touched", j>>})
         ELSE IF o.n = m.fn THEN {<<"nodes-notmade", j>>}
         ELSE IF o.format # (IF Fits(q) THEN "vanilla" ELSE IF q.n.c = "d" THEN "deep" ELSE IF q.n.c = "x" THEN "xnod" ELSE "znod") THEN {<<"format", j, o.format, q.n.c>>}
         ELSE IF q.n.c = "z" /\ o.zlevel # (CASE q.n.lvl \in -2..1 -> (IF q.n.lvl = -1 THEN 2 ELSE 0) [] q.n.lvl \in 2..5 -> 1 [] q.n.lvl = 6 -> 2 [] OTHER -> 3)
              THEN {<<"zlevel", j, o.zlevel, q.n.lvl>>} ELSE {},
         IF KeyR(q) = <<"kept">> THEN (IF o.r = m.fr THEN {} ELSE {<<"reject-touched", j>>})
         ELSE IF o.r = m.fr THEN {<<"reject-notmade", j>>}
         ELSE IF q.r.z /\ ~o.rzero THEN {<<"notzero", j>>} ELSE {} }
Single(i) ==
    LET q == P[i]
        r == Runs[i]
        w == Outcome(q)
    IN CASE r.crash -> {<<"crash", i>>}
         [] w = "refuse" -> (IF r.exit = 0 THEN {<<"taken", i>>} ELSE {}) \cup (IF r.target # "none" \/ r.stray THEN {<<"touched", i>>} ELSE {})
                             \cup (IF ~r.said THEN {<<"silent", i>>} ELSE {})
         [] w = "help" -> (IF r.exit # 0 \/ ~r.said THEN {<<"nohelp", i>>} ELSE {}) \cup (IF r.target # "none" \/ r.stray THEN {<<"touched", i>>} ELSE {})
         [] OTHER ->
            IF r.exit # 0 THEN {<<"refused", i>>}
            ELSE IF r.stray THEN {<<"stray", i>>}
            ELSE IF r.target # (IF q.out = <<>> THEN "in" ELSE "out") THEN {<<"target", i, r.target>>}
            ELSE (IF q.rep /\ ~r.noted THEN {<<"notreported", i>>} ELSE {})
                 \cup (IF (r.hashes /\ ~q.hash) \/ (~r.hashes /\ q.hash /\ (q.b.on \/ q.n.on \/ q.r.on)) THEN {<<"hashes", i>>} ELSE {})
                 \cup (IF r.wronghash THEN {<<"wronghash", i>>} ELSE {})
                 \cup (IF q.eject = r.others THEN {<<"others", i>>} ELSE {})
                 \cup UNION {{<<x, i>> : x \in Part(q, r, j)} : j \in 1..Len(Maps)}

(* two runs *)
Runs2 == {i \in 1..Len(Runs) : Outcome(P[i]) = "run" /\ P[i].det /\ ~Runs[i].crash /\ Runs[i].exit = 0}
(* settings that this map is known to tell from the default, each alone *)
Tells(i, k, part, j) == /\ key[k][part] = Keys(Start)[part] /\ \E t \in tel : t[1] = j /\ t[2] = part /\ t[3][part] = key[i][part]
Shows(i, k, part, j) == Tells(i, k, part, j) \/ Tells(k, i, part, j)
PartPair(i, k, j, part, differs, same) ==
    LET a == Runs[i].maps[j][part]
        b == Runs[k].maps[j][part]
    IN (IF a # b /\ key[i][part] = key[k][part] THEN {<<differs, i, k, j>>} ELSE {})
       \cup (IF a = b /\ key[i][part] # key[k][part] /\ Shows(i, k, part, j) THEN {<<same, i, k, j>>} ELSE {})
Pair(i, k) ==
    UNION { IF ~Chosen(P[i], Maps[j].name) \/ ~Chosen(P[k], Maps[j].name) THEN {}
            ELSE PartPair(i, k, j, "b", "blockmap-differs", "blockmap-same") \cup PartPair(i, k, j, "n", "nodes-differ", "nodes-same")
                 \cup PartPair(i, k, j, "r", "reject-differs", "reject-same")
            : j \in 1..Len(Maps) }

Init == /\ c \in 1..Len(Cases) /\ bad = {}
        /\ par = [i \in 1..Len(Runs) |-> Parse(Runs[i].args)]
        /\ key = [i \in 1..Len(Runs) |-> Keys(par[i])]
        /\ tel = {<<C.tell[i].map, C.tell[i].part, Keys(Parse(C.tell[i].args))>> : i \in 1..Len(C.tell)}
Next == /\ bad = {} /\ UNCHANGED <<c, par, key, tel>>
        /\ LET s == UNION {Single(i) : i \in 1..Len(Runs)}
               t == UNION {Pair(i, k) : <<i, k>> \in {x \in Runs2 \X Runs2 : x[1] < x[2]}}
           IN bad' = s \cup t /\ bad' # {}
Spec == Init /\ [][Next]_vars
Conforms == bad = {} \/ (PrintT(<<"VV-BAD", c, bad>>) /\ FALSE)
=============================================================================
