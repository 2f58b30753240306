-------------------------------- MODULE Rmb --------------------------------
(* The effects file.  A file is read line by line exactly as it stands       *)
(* (characters), parsed by the grammar of rmb-manual.html, and the commands  *)
(* are applied to the plain reject table of every level; the recorded table  *)
(* must lie between the bounds so obtained.                                  *)
(* Verdict of a line:  "skip" blank or comment, "ok", "bad" must be refused, *)
(* "may": the manual does not say whether it is legal; if the program takes  *)
(* it, it must mean what is parsed here.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES c,      \* case
          phase,  \* "parse" | "levels" | "done"
          k,      \* next line / level
          frame,  \* name (characters) of the current section, <<>> for the global one
          cmds,   \* sequence of [f |-> section name, m |-> command]
          verdict, \* "ok" | "may" | "bad"
          first,  \* first line that is bad, 0
          bad
vars == <<c, phase, k, frame, cmds, verdict, first, bad>>
C == Cases[c]

Max(a, b) == IF a > b THEN a ELSE b
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(S) == CHOOSE x \in S : \A y \in S : x >= y
Range(s) == {s[i] : i \in 1..Len(s)}

-----------------------------------------------------------------------------
(* Characters and words                                                      *)
UP == [a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", f |-> "F", g |-> "G", h |-> "H", i |-> "I", j |-> "J",
       k |-> "K", l |-> "L", m |-> "M", n |-> "N", o |-> "O", p |-> "P", q |-> "Q", r |-> "R", s |-> "S", t |-> "T",
       u |-> "U", v |-> "V", w |-> "W", x |-> "X", y |-> "Y", z |-> "Z"]
Upper(ch) == IF ch \in DOMAIN UP THEN UP[ch] ELSE ch
UpperW(w) == [i \in 1..Len(w) |-> Upper(w[i])]
DG == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@ "5" :> 5 @@ "6" :> 6 @@ "7" :> 7 @@ "8" :> 8 @@ "9" :> 9
Digit(ch) == ch \in DOMAIN DG
Blank(ch) == ch \in {" ", "\t", "\r"}

(* tokens: [t |-> "word", "(", ")", ","; w |-> characters; sp |-> blank before] *)
RECURSIVE Tok(_, _, _, _)
Tok(l, i, sp, acc) ==
  IF i > Len(l) THEN acc
  ELSE LET ch == l[i] IN
       IF Blank(ch) THEN Tok(l, i + 1, TRUE, acc)
       ELSE IF ch \in {"(", ")", ","} THEN Tok(l, i + 1, FALSE, Append(acc, [t |-> ch, w |-> <<ch>>, sp |-> sp]))
       ELSE LET stop == {j \in i..Len(l) : Blank(l[j]) \/ l[j] \in {"(", ")", ","}}
                e == IF stop = {} THEN Len(l) + 1 ELSE Min(stop)
            IN Tok(l, e, FALSE, Append(acc, [t |-> "word", w |-> SubSeq(l, i, e - 1), sp |-> sp]))

(* plain words, for the options that take names *)
RECURSIVE Words(_, _, _)
Words(l, i, acc) ==
  IF i > Len(l) THEN acc
  ELSE IF Blank(l[i]) THEN Words(l, i + 1, acc)
  ELSE LET stop == {j \in i..Len(l) : Blank(l[j])}
           e == IF stop = {} THEN Len(l) + 1 ELSE Min(stop)
       IN Words(l, e, Append(acc, SubSeq(l, i, e - 1)))

RECURSIVE Val(_, _, _)
Val(w, i, a) == IF i > Len(w) THEN a ELSE Val(w, i + 1, 10 * a + DG[w[i]])
IsNum(w) == Len(w) > 0 /\ \A i \in 1..Len(w) : Digit(w[i])
IsSigned(w) == Len(w) > 1 /\ w[1] \in {"-", "+"} /\ IsNum(SubSeq(w, 2, Len(w)))
BIG == 100000000
NumOf(w) == IF IsSigned(w) THEN IF Len(w) > 9 THEN -1
                                ELSE IF w[1] = "-" THEN 0 - Val(w, 2, 0) ELSE Val(w, 2, 0)
            ELSE IF Len(w) > 8 THEN BIG ELSE Val(w, 1, 0)
NumV(w) == IF IsNum(w) THEN (IF Len(w) > 6 THEN "may" ELSE "ok") ELSE IF IsSigned(w) THEN "may" ELSE "bad"
Worse(a, b) == IF a = "bad" \/ b = "bad" THEN "bad" ELSE IF a = "may" \/ b = "may" THEN "may" ELSE "ok"

-----------------------------------------------------------------------------
(* Options                                                                   *)
Syntax == << <<"ASSERT", "LLN">>, <<"BAND", "NNL">>, <<"BLIND", "NL">>, <<"BLOCK", "NN">>, <<"DISTANCE", "N">>,
             <<"DOOR", "N">>, <<"EXCLUDE", "LL">>, <<"GROUP", "NL">>, <<"INCLUDE", "LL">>, <<"INVERT", "">>,
             <<"LEFT", "N">>, <<"LENGTH", "N">>, <<"LINE", "N">>, <<"NODOOR", "L">>, <<"NOMAP", "">>,
             <<"NOPROCESS", "">>, <<"ONE", "NN">>, <<"PERFECT", "">>, <<"PREPROCESS", "N">>, <<"PROCESS", "L">>,
             <<"REPORT", "N">>, <<"RIGHT", "N">>, <<"SAFE", "NL">>, <<"TRACE", "L">>, <<"VORTEX", "LL">> >>
SyntaxOf(op) == CASE op = "ASSERT" -> <<"L", "L", "N">>
                  [] op = "BAND" -> <<"N", "N", "L">>
                  [] op \in {"BLIND", "SAFE", "GROUP"} -> <<"N", "L">>
                  [] op \in {"BLOCK", "ONE"} -> <<"N", "N">>
                  [] op \in {"DISTANCE", "DOOR", "LEFT", "RIGHT", "LINE", "LENGTH", "PREPROCESS", "REPORT"} -> <<"N">>
                  [] op \in {"INCLUDE", "EXCLUDE", "VORTEX"} -> <<"L", "L">>
                  [] op \in {"NODOOR", "PROCESS", "TRACE"} -> <<"L">>
                  [] OTHER -> <<>>
Spelled(op) == CASE op = "ASSERT" -> <<"A","S","S","E","R","T">> [] op = "BAND" -> <<"B","A","N","D">>
   [] op = "BLIND" -> <<"B","L","I","N","D">> [] op = "BLOCK" -> <<"B","L","O","C","K">>
   [] op = "DISTANCE" -> <<"D","I","S","T","A","N","C","E">> [] op = "DOOR" -> <<"D","O","O","R">>
   [] op = "EXCLUDE" -> <<"E","X","C","L","U","D","E">> [] op = "GROUP" -> <<"G","R","O","U","P">>
   [] op = "INCLUDE" -> <<"I","N","C","L","U","D","E">> [] op = "INVERT" -> <<"I","N","V","E","R","T">>
   [] op = "LEFT" -> <<"L","E","F","T">> [] op = "LENGTH" -> <<"L","E","N","G","T","H">>
   [] op = "LINE" -> <<"L","I","N","E">> [] op = "NODOOR" -> <<"N","O","D","O","O","R">>
   [] op = "NOMAP" -> <<"N","O","M","A","P">> [] op = "NOPROCESS" -> <<"N","O","P","R","O","C","E","S","S">>
   [] op = "ONE" -> <<"O","N","E">> [] op = "PERFECT" -> <<"P","E","R","F","E","C","T">>
   [] op = "PREPROCESS" -> <<"P","R","E","P","R","O","C","E","S","S">> [] op = "PROCESS" -> <<"P","R","O","C","E","S","S">>
   [] op = "REPORT" -> <<"R","E","P","O","R","T">> [] op = "RIGHT" -> <<"R","I","G","H","T">>
   [] op = "SAFE" -> <<"S","A","F","E">> [] op = "TRACE" -> <<"T","R","A","C","E">>
   [] op = "VORTEX" -> <<"V","O","R","T","E","X">>
Options == {Syntax[i][1] : i \in 1..Len(Syntax)}
Prefix(p, w) == Len(p) <= Len(w) /\ \A i \in 1..Len(p) : p[i] = w[i]
Meant(w) == {op \in Options : Prefix(w, Spelled(op))}
(* ExMy and MAPxy *)
IsExMy(w) == /\ Len(w) \in {4, 5} /\ w[1] = "E" /\ Digit(w[2]) /\ w[2] # "0" /\ w[3] = "M"
             /\ \A i \in 4..Len(w) : Digit(w[i])
IsMapXY(w) == Len(w) = 5 /\ Prefix(<<"M","A","P">>, w) /\ Digit(w[4]) /\ Digit(w[5])

No == [op |-> "", inv |-> FALSE, band |-> FALSE, n |-> <<>>, l |-> <<>>, s |-> <<>>]

(* a bracketed list from token i on: [v, list, next] *)
RECURSIVE Bracket(_, _, _, _)
Bracket(t, i, acc, v) ==
  IF i > Len(t) THEN [v |-> "bad", list |-> acc, next |-> i]
  ELSE IF t[i].t = ")" THEN [v |-> IF acc = <<>> THEN Worse(v, "may") ELSE v, list |-> acc, next |-> i + 1]
  ELSE IF t[i].t = "," THEN Bracket(t, i + 1, acc, Worse(v, "may"))
  ELSE IF t[i].t = "(" THEN [v |-> "bad", list |-> acc, next |-> i]
  ELSE Bracket(t, i + 1, Append(acc, IF NumV(t[i].w) = "bad" THEN 0 ELSE NumOf(t[i].w)), Worse(v, NumV(t[i].w)))
(* the rest of the line as a list without brackets *)
RECURSIVE Open(_, _, _, _)
Open(t, i, acc, v) ==
  IF i > Len(t) THEN [v |-> v, list |-> acc, next |-> i]
  ELSE IF t[i].t = "," THEN Open(t, i + 1, acc, Worse(v, "may"))
  ELSE IF t[i].t # "word" THEN [v |-> "bad", list |-> acc, next |-> i]
  ELSE Open(t, i + 1, Append(acc, IF NumV(t[i].w) = "bad" THEN 0 ELSE NumOf(t[i].w)), Worse(v, NumV(t[i].w)))
AList(t, i, tail) ==
  IF i > Len(t) THEN [v |-> "bad", list |-> <<>>, next |-> i]
  ELSE IF t[i].t = "(" THEN Bracket(t, i + 1, <<>>, IF t[i].sp THEN "ok" ELSE "may")
  ELSE IF t[i].t # "word" THEN [v |-> "bad", list |-> <<>>, next |-> i]
  ELSE IF tail THEN Open(t, i, <<>>, "ok")
  ELSE [v |-> Worse(NumV(t[i].w), IF t[i].sp THEN "ok" ELSE "may"), list |-> <<IF NumV(t[i].w) = "bad" THEN 0 ELSE NumOf(t[i].w)>>, next |-> i + 1]

RECURSIVE Arguments(_, _, _, _, _)
Arguments(t, i, syn, m, v) ==
  IF syn = <<>> THEN [v |-> IF i <= Len(t) THEN "bad" ELSE v, m |-> m]
  ELSE IF syn[1] = "N"
         THEN IF i > Len(t) \/ (i <= Len(t) /\ t[i].t # "word") THEN [v |-> "bad", m |-> m]
              ELSE IF NumV(t[i].w) = "bad" THEN [v |-> "bad", m |-> m]
              ELSE Arguments(t, i + 1, SubSeq(syn, 2, Len(syn)), [m EXCEPT !.n = Append(@, NumOf(t[i].w))],
                             Worse(v, Worse(NumV(t[i].w), IF t[i].sp THEN "ok" ELSE "may")))
       ELSE LET r == AList(t, i, Len(syn) = 1) IN
            IF r.v = "bad" THEN [v |-> "bad", m |-> m]
            ELSE Arguments(t, r.next, SubSeq(syn, 2, Len(syn)), [m EXCEPT !.l = Append(@, r.list)], Worse(v, r.v))

(* a comment after the command: not described in the manual *)
CutComment(t) == LET q == {i \in 1..Len(t) : t[i].t = "word" /\ t[i].w[1] = "#"} IN
                 IF q = {} THEN [t |-> t, v |-> "ok"] ELSE [t |-> SubSeq(t, 1, Min(q) - 1), v |-> "may"]

(* options after INVERT or BAND *)
Kind(t, i, inv) ==
  IF i > Len(t) THEN [v |-> "bad", op |-> "", i |-> i, band |-> FALSE]
  ELSE LET w == UpperW(t[i].w)
           ms == {o \in Meant(w) : o \in {"BAND", "BLIND", "SAFE"}}
           v == IF t[i].t # "word" \/ ms = {} THEN "bad"
                ELSE IF Cardinality(Meant(w)) > 1 THEN (IF Cardinality(ms) > 1 THEN "bad" ELSE "may")
                ELSE "ok"
       IN IF v = "bad" THEN [v |-> "bad", op |-> "", i |-> i, band |-> FALSE]
          ELSE LET o == CHOOSE o \in ms : TRUE IN [v |-> v, op |-> o, i |-> i + 1, band |-> FALSE]
BandKind(t, i) ==
  IF i > Len(t) THEN [v |-> "bad", op |-> ""]
  ELSE LET w == UpperW(t[i].w)
           ms == {o \in Meant(w) : o \in {"BLIND", "SAFE"}} IN
       IF t[i].t # "word" \/ ms = {} THEN [v |-> "bad", op |-> ""]
       ELSE LET o == CHOOSE o \in ms : TRUE IN [v |-> IF w = Spelled(o) THEN "ok" ELSE "may", op |-> o]

Option(t0, op0, inv, at, v0) ==   \* the tokens, the option meant, after INVERT?, next token
  LET cc == CutComment(t0)  t == cc.t  v == Worse(v0, cc.v) IN
  IF op0 = "BAND"
    THEN LET b == BandKind(t, at)
             r == Arguments(t, at + 1, <<"N", "N", "L">>, [No EXCEPT !.op = b.op, !.inv = inv, !.band = TRUE], Worse(v, b.v))
         IN IF b.v = "bad" THEN [v |-> "bad", m |-> No] ELSE r
  ELSE Arguments(t, at, SyntaxOf(op0), [No EXCEPT !.op = op0, !.inv = inv], v)

(* file and map names of NOPROCESS: a name in quotes ends at a quote that a blank or the end follows *)
RECURSIVE NameWords(_, _, _)
NameWords(l, i, acc) ==   \* [s: names, cmt: a comment follows, open: quote without end]
  IF i > Len(l) THEN [s |-> acc, cmt |-> FALSE, open |-> FALSE]
  ELSE IF Blank(l[i]) THEN NameWords(l, i + 1, acc)
  ELSE IF l[i] = "#" THEN [s |-> acc, cmt |-> TRUE, open |-> FALSE]
  ELSE IF l[i] = "\""
    THEN LET ends == {j \in (i + 1)..Len(l) : l[j] = "\"" /\ (j = Len(l) \/ (j < Len(l) /\ Blank(l[j + 1])))} IN
         IF ends = {} THEN [s |-> acc, cmt |-> FALSE, open |-> TRUE]
         ELSE NameWords(l, Min(ends) + 1, Append(acc, SubSeq(l, i + 1, Min(ends) - 1)))
  ELSE LET stop == {j \in i..Len(l) : Blank(l[j])}
           e == IF stop = {} THEN Len(l) + 1 ELSE Min(stop)
       IN NameWords(l, e, Append(acc, SubSeq(l, i, e - 1)))
Names(l, ws) == LET from == CHOOSE i \in 1..Len(l) : ~Blank(l[i]) /\ \A j \in 1..(i - 1) : Blank(l[j])
                    r == NameWords(l, from + Len(ws[1]), <<>>)
                IN [v |-> IF Len(r.s) > 2 THEN "bad" ELSE IF r.cmt \/ r.open \/ (\E i \in 1..Len(r.s) : r.s[i] = <<>>) THEN "may" ELSE "ok",
                    m |-> [No EXCEPT !.op = "NOPROCESS", !.s = r.s, !.band = r.open]]

(* one line: [v, m (command), f (section, <<>> if none)] *)
Line(l) ==
  LET ws == Words(l, 1, <<>>) IN
  IF ws = <<>> THEN [v |-> "skip", m |-> No, f |-> <<>>]
  ELSE IF ws[1][1] = "#" THEN [v |-> "skip", m |-> No, f |-> <<>>]
  ELSE LET t == Tok(l, 1, TRUE, <<>>)
           w == UpperW(ws[1])
           cmt == Len(ws) > 1 /\ ws[2][1] = "#" IN
       IF IsExMy(w) \/ IsMapXY(w)
         THEN [v |-> IF Len(ws) = 1 THEN "ok" ELSE IF cmt THEN "may" ELSE "bad", m |-> No, f |-> w]
       ELSE IF w = <<"M","A","P">>
         THEN IF Len(ws) = 1 \/ (Len(ws) > 1 /\ cmt) THEN [v |-> "bad", m |-> No, f |-> <<>>]
              ELSE [v |-> IF Len(ws) = 2 THEN "ok" ELSE IF ws[3][1] = "#" THEN "may" ELSE "bad", m |-> No, f |-> UpperW(ws[2])]
       ELSE IF UpperW(t[1].w) # w
         THEN [v |-> "bad", m |-> No, f |-> <<>>]
       ELSE LET ms == Meant(w)
                op == IF ms = {} THEN "" ELSE IF \E o \in ms : Spelled(o) = w THEN CHOOSE o \in ms : Spelled(o) = w
                      ELSE IF Cardinality(ms) = 1 THEN CHOOSE o \in ms : TRUE ELSE "" IN
            IF op = "" THEN [v |-> "bad", m |-> No, f |-> <<>>]
            ELSE LET v0 == IF w = <<"E">> THEN "may" ELSE "ok" IN
                 IF op = "NOPROCESS" THEN LET r == Names(l, ws) IN [v |-> r.v, m |-> r.m, f |-> <<>>]
                 ELSE IF op = "INVERT"
                   THEN LET q == Kind(CutComment(t).t, 2, TRUE) IN
                        IF q.v = "bad" THEN [v |-> "bad", m |-> No, f |-> <<>>]
                        ELSE LET r == Option(t, q.op, TRUE, q.i, q.v) IN [v |-> r.v, m |-> r.m, f |-> <<>>]
                 ELSE LET r == Option(t, op, FALSE, 2, v0) IN [v |-> r.v, m |-> r.m, f |-> <<>>]

-----------------------------------------------------------------------------
Init == /\ c \in 1..Len(Cases) /\ phase = "parse" /\ k = 1 /\ frame = <<>> /\ cmds = <<>>
        /\ verdict = "ok" /\ first = 0 /\ bad = {}

Parse == /\ phase = "parse" /\ k <= Len(C.lines)
         /\ LET r == Line(C.lines[k]) IN
            /\ verdict' = IF r.v = "skip" THEN verdict ELSE Worse(verdict, r.v)
            /\ first' = IF r.v = "bad" /\ first = 0 THEN k ELSE first
            /\ frame' = IF r.v \in {"ok", "may"} /\ r.f # <<>> THEN r.f ELSE frame
            /\ cmds' = IF r.v \in {"ok", "may"} /\ r.f = <<>> THEN Append(cmds, [f |-> frame, m |-> r.m]) ELSE cmds
         /\ k' = k + 1 /\ UNCHANGED <<c, phase, bad>>

(* what happened to the run as a whole *)
RunBad ==
  (IF C.crashed THEN {<<"crash">>} ELSE {}) \cup
  (IF C.exit # 0 /\ C.wrote THEN {<<"wrote">>} ELSE {}) \cup
  (IF ~C.crashed /\ C.exit # 0 /\ verdict = "ok" THEN {<<"refusesvalid">>} ELSE {}) \cup
  (IF ~C.crashed /\ C.exit = 0 /\ verdict = "bad" THEN {<<"takesinvalid", first>>} ELSE {}) \cup
  (IF ~C.crashed /\ C.exit # 0 /\ verdict = "bad" /\ first \notin Range(C.errlines) THEN {<<"notreported", first>>} ELSE {})

Judge == /\ phase = "parse" /\ k > Len(C.lines)
         /\ bad' = RunBad
         /\ phase' = IF C.exit = 0 /\ ~C.crashed /\ verdict # "bad" THEN "levels" ELSE "done"
         /\ k' = 1 /\ UNCHANGED <<c, frame, cmds, verdict, first>>

-----------------------------------------------------------------------------
(* Effects on one level                                                      *)
INF == 65535
ForLevel(L) == LET mine(f) == SelectSeq(cmds, LAMBDA x : x.f = f)
                   g == mine(<<>>)  m == mine(L.name)
               IN [g |-> [i \in 1..Len(g) |-> g[i].m], l |-> [i \in 1..Len(m) |-> m[i].m]]

RECURSIVE GroupBy(_, _, _)
(* state: [rep |-> function, loose |-> BOOLEAN] *)
GroupBy(cs, i, st) ==
  IF i > Len(cs) THEN st
  ELSE IF cs[i].op # "GROUP" THEN GroupBy(cs, i + 1, st)
  ELSE LET a == cs[i].n[1]
           S == DOMAIN st.rep
           vs == Range(cs[i].l[1]) IN
       IF a \notin S THEN GroupBy(cs, i + 1, [st EXCEPT !.loose = @ \/ a < 0])
       ELSE IF st.rep[a] # a THEN GroupBy(cs, i + 1, [st EXCEPT !.loose = TRUE])
       ELSE LET join == {v \in vs \cap S : v # a /\ st.rep[v] = v}
                chain == \E v \in join : \E u \in S : u # v /\ st.rep[u] = v
                again == \E v \in vs \cap S : v # a /\ st.rep[v] # v
            IN GroupBy(cs, i + 1, [rep |-> [u \in S |-> IF u \in join THEN a ELSE st.rep[u]],
                                   loose |-> st.loose \/ chain \/ again \/ \E v \in vs : v < 0])

(* distances by growing balls over groups *)
Distances(S, rep, adj) ==
  LET nb == [u \in S |-> {rep[q[2]] : q \in {x \in adj : rep[x[1]] = u}} \ {u}]
      reps == {rep[u] : u \in S}
      grow[q \in (reps \X (0..Cardinality(S)))] ==
         IF q[2] = 0 THEN {q[1]} ELSE LET b == grow[<<q[1], q[2] - 1>>] IN b \cup UNION {nb[u] : u \in b}
      d[q \in reps \X reps] == LET at == {r \in 0..Cardinality(S) : q[2] \in grow[<<q[1], r>>]} IN
                               IF at = {} THEN INF ELSE Min(at)
  IN [p \in S \X S |-> d[<<rep[p[1]], rep[p[2]]>>]]

(* BLIND or SAFE state of a sector: [k, lo, hi]; k 0 none, 1 plain, 2 inverted, 3 both, 4 band, 7 inverted band *)
RECURSIVE StateOf(_, _, _, _, _, _)
StateOf(cs, i, op, u, rep, st) ==
  IF i > Len(cs) THEN st
  ELSE LET m == cs[i] IN
       IF m.op # op \/ u \notin {rep[v] : v \in Range(m.l[1]) \cap DOMAIN rep} THEN StateOf(cs, i + 1, op, u, rep, st)
       ELSE IF m.band THEN StateOf(cs, i + 1, op, u, rep, [k |-> IF m.inv THEN 7 ELSE 4, lo |-> m.n[1], hi |-> m.n[2]])
       ELSE IF st.k >= 4 THEN StateOf(cs, i + 1, op, u, rep, st)
       ELSE IF m.inv THEN StateOf(cs, i + 1, op, u, rep, [st EXCEPT !.k = IF @ \in {1, 3} THEN 3 ELSE 2, !.hi = m.n[1]])
       ELSE StateOf(cs, i + 1, op, u, rep, [st EXCEPT !.k = IF @ \in {2, 3} THEN 3 ELSE 1, !.lo = m.n[1]])
Nothing == [k |-> 0, lo |-> 0, hi |-> 0]
(* a sector at distance d (0: the sector itself) from one in state st: must / may it be hidden *)
MustHide(st, d) ==
  CASE st.k = 0 -> FALSE
    [] st.k = 1 -> d >= st.lo
    [] st.k = 2 -> d < st.hi
    [] st.k = 3 -> IF st.lo < st.hi THEN d >= st.lo /\ d < st.hi ELSE d >= st.lo \/ d < st.hi
    [] st.k = 4 -> d >= st.lo /\ d < st.hi
    [] st.k = 7 -> d >= st.hi \/ d < st.lo - 1
MayHide(st, d) == MustHide(st, d) \/ (st.k \in {4, 7} /\ d = st.lo - 1)

Simple(m) == m.op \in {"BLIND", "SAFE"} => ~m.band /\ m.n[1] \in {0, 1}
Ops(cs) == {cs[i].op : i \in 1..Len(cs)}
LastOf(cs, op) == LET q == {i \in 1..Len(cs) : cs[i].op = op} IN
                  IF q = {} THEN 0 ELSE CHOOSE i \in q : \A j \in q : j <= i
(* the last one of the level's own section, else of the global one *)
Value(F, op, dflt) == IF LastOf(F.l, op) > 0 THEN F.l[LastOf(F.l, op)].n[1]
                      ELSE IF LastOf(F.g, op) > 0 THEN F.g[LastOf(F.g, op)].n[1] ELSE dflt

(* NOPROCESS: which existing table; <<>> when there is none that fits *)
NoProcess(F) == IF LastOf(F.l, "NOPROCESS") > 0 THEN <<F.l[LastOf(F.l, "NOPROCESS")]>>
                ELSE IF LastOf(F.g, "NOPROCESS") > 0 THEN <<F.g[LastOf(F.g, "NOPROCESS")]>> ELSE <<>>
Source(L, F) ==
  IF NoProcess(F) = <<>> THEN <<>>
  ELSE LET m == NoProcess(F)[1]
           want == [wad |-> IF Len(m.s) >= 1 THEN m.s[1] ELSE <<>>,
                    map |-> IF Len(m.s) >= 2 THEN UpperW(m.s[2]) ELSE L.name]
           q == {i \in 1..Len(C.tables) : C.tables[i].wad = want.wad /\ C.tables[i].map = want.map} IN
       IF q = {} THEN <<>>
       ELSE LET x == C.tables[CHOOSE i \in q : TRUE] IN
            IF x.size # (L.n * L.n + 7) \div 8 THEN <<>>
            ELSE [i \in 1..L.n |-> [j \in 1..L.n |-> x.bits[(i - 1) * L.n + j]]]
AssertsHold(cs, src, S) ==
  \A i \in 1..Len(cs) : cs[i].op = "ASSERT" =>
     \A a \in Range(cs[i].l[1]) \cap S, b \in Range(cs[i].l[2]) \cap S : src[a + 1][b + 1] = cs[i].n[1]

(* VORTEX: least it must do, and most it may do, to a set of visible pairs *)
Lists(cs, S) == {<<Range(cs[i].l[1]) \cap S, Range(cs[i].l[2]) \cap S>> : i \in {x \in 1..Len(cs) : cs[x].op = "VORTEX"}}
Spread(rep, A) == {u \in DOMAIN rep : \E a \in A : a = u \/ rep[u] = a}
Across(V) == UNION {(v[1] \X v[2]) \cup (v[2] \X v[1]) : v \in V}
Conduit(S, V, T) == {q \in S \X S : \E v \in V : \/ (\E a \in v[1] : <<q[1], a>> \in T) /\ (\E b \in v[2] : <<b, q[2]>> \in T)
                                                 \/ (\E a \in v[2] : <<q[1], a>> \in T) /\ (\E b \in v[1] : <<b, q[2]>> \in T)}
Link(V, T) == UNION {LET A == p[1][1] \cup p[1][2]  B == p[2][1] \cup p[2][2] IN
                     IF (\E a \in A, b \in B : <<a, b>> \in T) THEN A \X B ELSE {}
                     : p \in {x \in V \X V : x[1] # x[2]}}
VortexLow(S, V, T) == IF V = {} THEN T ELSE T \cup Across(V) \cup Link(V, T) \cup Conduit(S, V, T)
RECURSIVE VortexHigh(_, _, _)
VortexHigh(S, V, T) == LET n == T \cup Across(V) \cup Conduit(S, V, T \cup Across(V)) \cup Link(V, T \cup Across(V)) IN
                       IF n = T THEN T ELSE VortexHigh(S, V, n)
(* pairs named by INCLUDE or EXCLUDE; the number of a group stands for all of it *)
Named(cs, op, rep) == UNION {Spread(rep, Range(cs[i].l[1]) \cap DOMAIN rep) \X Spread(rep, Range(cs[i].l[2]) \cap DOMAIN rep)
                             : i \in {x \in 1..Len(cs) : cs[x].op = op}}

Loose(L, F, cs, gr) ==
  \/ gr.loose
  \/ Ops(cs) \cap {"PERFECT", "PREPROCESS"} # {} /\ "NOPROCESS" \in Ops(cs)
  \/ \E i \in 1..Len(cs) :
       \/ cs[i].op \in {"LINE", "LEFT", "RIGHT"} /\ (cs[i].n[1] < 0 \/ cs[i].n[1] < L.lines)
       \/ \E x \in 1..Len(cs[i].n) : cs[i].n[x] < 0
       \/ cs[i].op = "NOPROCESS" /\ cs[i].band                       \* name without closing quote
       \/ cs[i].op # "NOPROCESS" /\ cs[i].band /\ cs[i].n[1] > cs[i].n[2]
       \/ cs[i].op \in {"BLIND", "SAFE"} /\ \E v \in Range(cs[i].l[1]) \cap DOMAIN gr.rep : gr.rep[v] # v
       \/ cs[i].op = "VORTEX" /\ \E v \in (Range(cs[i].l[1]) \cup Range(cs[i].l[2])) \cap DOMAIN gr.rep :
                                    \E u \in DOMAIN gr.rep : u # v /\ gr.rep[u] = gr.rep[v]
       \/ cs[i].op = "ASSERT" /\ cs[i].n[1] \notin {0, 1}
       \/ cs[i].op = "ASSERT" /\ \E v \in Range(cs[i].l[1]) \cup Range(cs[i].l[2]) : v \notin DOMAIN gr.rep

(* the bounds: [must |-> visible for sure, may |-> possibly visible, d |-> distances] *)
Bounds(L, F, cs, gr) ==
  LET S == 0..(L.n - 1)
      rep == gr.rep
      src == LET s == Source(L, F) IN IF s = <<>> THEN s ELSE IF AssertsHold(cs, s, S) THEN s ELSE <<>>
      reuse == src # <<>>
      adjS == {<<x[1], x[2]>> : x \in Range(L.adj)} \cup {<<x[2], x[1]>> : x \in Range(L.adj)}
      d == Distances(S, rep, adjS)
      app == IF reuse THEN SelectSeq(cs, Simple) ELSE cs
      bl == [u \in S |-> IF rep[u] = u THEN StateOf(app, 1, "BLIND", u, rep, Nothing) ELSE Nothing]
      sf == [u \in S |-> IF rep[u] = u THEN StateOf(app, 1, "SAFE", u, rep, Nothing) ELSE Nothing]
      len == IF reuse THEN INF ELSE Value(F, "LENGTH", INF)
      dst == IF reuse THEN -1 ELSE Value(F, "DISTANCE", -1)
      far == ~reuse /\ Ops(cs) \cap {"BLIND", "SAFE", "LENGTH", "REPORT"} # {}
      gapLo(i, j) == Min({L.gaplo[a + 1][b + 1] : a \in {u \in S : rep[u] = rep[i]}, b \in {u \in S : rep[u] = rep[j]}})
      gapHi(i, j) == Max2({L.gaphi[a + 1][b + 1] : a \in {u \in S : rep[u] = rep[i]}, b \in {u \in S : rep[u] = rep[j]}})
      around(i) == {x \in S : <<i, x>> \in adjS /\ x # i}
      \* nothing lies between them but one sector, which is all either of them touches: DISTANCE leaves them alone
      through(i, j) == d[<<i, j>>] = 2 /\ around(i) = around(j) /\ Cardinality(around(i)) = 1
      must(i, j) == \/ MustHide(bl[rep[i]], d[<<i, j>>]) \/ MustHide(sf[rep[j]], d[<<i, j>>])
                    \/ len < INF /\ d[<<i, j>>] > Max(len, 1)
                    \/ dst >= 0 /\ dst < 30000 /\ d[<<i, j>>] >= 3 /\ d[<<i, j>>] < INF /\ gapLo(i, j) > dst * dst
      may(i, j) == \/ MayHide(bl[rep[i]], d[<<i, j>>]) \/ MayHide(sf[rep[j]], d[<<i, j>>])
                   \/ len < INF /\ d[<<i, j>>] >= len
                   \/ dst >= 0 /\ dst < 30000 /\ d[<<i, j>>] >= 2 /\ gapHi(i, j) >= dst * dst /\ ~through(i, j)
                   \/ far /\ d[<<i, j>>] = INF
      share == ~reuse /\ \E u \in S : rep[u] # u
      plain0 == IF reuse THEN {q \in S \X S : src[q[1] + 1][q[2] + 1] = 0}
                        ELSE {q \in S \X S : L.all[q[1] + 1][q[2] + 1] = 0}      \* visible in every plain table
      forced == ~reuse /\ "DISTANCE" \in Ops(cs)     \* then the whole group sees what one of it sees
      base0 == IF forced THEN {q \in S \X S : \E y \in plain0 : rep[y[1]] = rep[q[1]] /\ rep[y[2]] = rep[q[2]]} ELSE plain0
      base1 == IF reuse THEN base0 ELSE {q \in S \X S : L.any[q[1] + 1][q[2] + 1] = 0}   \* visible in some plain table
      base2 == IF share THEN {q \in S \X S : \E x \in base1 : rep[x[1]] = rep[q[1]] /\ rep[x[2]] = rep[q[2]]} ELSE base1
      V == Lists(cs, S)
      lo == VortexLow(S, V, {q \in base0 : ~may(q[1], q[2])})
      hi == VortexHigh(S, V, {q \in base2 : ~must(q[1], q[2])})
  IN [must |-> (lo \cup Named(cs, "INCLUDE", rep)) \ Named(cs, "EXCLUDE", rep),
      may |-> (hi \cup Named(cs, "INCLUDE", rep)) \ Named(cs, "EXCLUDE", rep), d |-> d, reuse |-> reuse]

ReportBad(L, F, B) ==
  LET r == Value(F, "REPORT", -1)
      S == 0..(L.n - 1)
      see(i, j) == L.out[i + 1][j + 1] = 0 /\ L.out[j + 1][i + 1] = 0
      sec == {i \in 1..Len(L.reports) : L.reports[i].dist = r} IN
  IF r < 0 \/ r > 60000 \/ B.reuse THEN {}
  ELSE IF sec = {} THEN {<<"noreport", L.name>>}
  ELSE LET got == {<<x[1], x[2]>> : x \in Range(L.reports[CHOOSE i \in sec : TRUE].pairs)} IN
       {<<"unreported", p[1], p[2]>> : p \in {q \in S \X S : q[1] < q[2] /\ B.d[q] > r /\ B.d[q] < INF /\ see(q[1], q[2])} \ got} \cup
       {<<"misreported", p[1], p[2]>> : p \in got \ {q \in S \X S : q[1] < q[2] /\ B.d[q] + 1 >= r /\ see(q[1], q[2])}}

LevelBad(L) ==
  LET F == ForLevel(L)
      cs == F.g \o F.l
      S == 0..(L.n - 1)
      gr == GroupBy(cs, 1, [rep |-> [u \in S |-> u], loose |-> FALSE]) IN
  IF L.out = <<>> THEN {<<"notable", L.name>>}
  ELSE IF Loose(L, F, cs, gr) THEN {}
  ELSE LET B == Bounds(L, F, cs, gr) IN
       {<<"hides", L.id, q[1], q[2]>> : q \in {x \in B.must : L.out[x[1] + 1][x[2] + 1] = 1}} \cup
       {<<"shows", L.id, q[1], q[2]>> : q \in {x \in S \X S : x \notin B.may /\ L.out[x[1] + 1][x[2] + 1] = 0}} \cup
       (IF B.must \subseteq B.may THEN {} ELSE {<<"incoherent", L.id>>}) \cup
       ReportBad(L, F, B)

Apply == /\ phase = "levels" /\ k <= Len(C.levels)
         /\ bad' = bad \cup LevelBad(C.levels[k])
         /\ k' = k + 1 /\ UNCHANGED <<c, phase, frame, cmds, verdict, first>>
Finish == /\ phase = "levels" /\ k > Len(C.levels) /\ phase' = "done"
          /\ UNCHANGED <<c, k, frame, cmds, verdict, first, bad>>

Next == Parse \/ Judge \/ Apply \/ Finish
Spec == Init /\ [][Next]_vars
Conforms == phase = "done" => (bad = {} \/ (PrintT(<<"VV-BAD", c, bad, verdict>>) /\ FALSE))
=============================================================================
