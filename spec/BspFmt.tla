------------------------------- MODULE BspFmt -------------------------------
(* One map, one set of options, several node formats asked for.               *)
(*                                                                            *)
(* A view is the decoded content of SEGS/SSECTORS/NODES of one run; runs with *)
(* the same bytes share a view.  Two runs are the reference: the one that     *)
(* asked for DeeP nodes (integer split points, no limits worth mentioning)    *)
(* and the one that asked for extended nodes (fractional split points).       *)
(* For every request the specification says which format must come out and    *)
(* which of the two trees it must hold, and then walks both trees in          *)
(* lockstep, since node numbers, seg order between leaves and numbering are   *)
(* matters of the format.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, k, to, stack, ns, ng, bad          \* to: the reference view walked against
vars == <<c, k, to, stack, ns, ng, bad>>

C == Cases[c]
View(i) == C.views[i]
Reqs == C.reqs
Counts(v) == {v.ss[i][2] : i \in 1..Len(v.ss)}

(* ---- what fits the vanilla format, with its fields taken as unsigned ------- *)
(* A child number has 15 bits and all ones means "no nodes at all".  A run of  *)
(* segs is named by its first one in 16 bits: the longest run may be put last. *)
NS(v) == Len(v.ss)
NG(v) == Len(v.segs)
Longest(v) == LET S == Counts(v) IN CHOOSE x \in S : \A y \in S : y <= x
Fits(v) == /\ NS(v) <= 32767
           /\ v.nv <= 65536
           /\ NG(v) - Longest(v) <= 65535
           /\ Longest(v) <= 65535
FitsSigned(v) == NG(v) - Longest(v) <= 32767

Deep == View(C.deep)
Ext  == View(C.ext)
Small == Fits(Deep)
(* <<format, view it must equal>> *)
Want(f) ==
  CASE f \in {"v", "V"} -> IF Small THEN <<"VANILLA", C.deep>> ELSE <<"NONE", 0>>
    [] f = "d" -> <<"DEEP", C.deep>>
    [] f = "x" -> <<"XNOD", C.ext>>
    [] f = "z" -> <<"ZNOD", C.ext>>
    [] f = "D" -> IF Small THEN <<"VANILLA", C.deep>> ELSE <<"DEEP", C.deep>>
    [] f = "X" -> IF Small THEN <<"VANILLA", C.deep>> ELSE <<"XNOD", C.ext>>
    [] f = "Z" -> IF Small THEN <<"VANILLA", C.deep>> ELSE <<"ZNOD", C.ext>>

Init == c \in 1..Len(Cases) /\ k = 0 /\ to = 0 /\ stack = <<>> /\ ns = 0 /\ ng = 0 /\ bad = {}

R == Reqs[k]
A == View(R.view)
B == View(to)
RootOf(v) == IF Len(v.nodes) = 0 THEN <<1, 0>> ELSE <<0, Len(v.nodes) - 1>>

(* the largest run is at the end of SEGS when that brings all of them in reach *)
Squeezed(v) == FitsSigned(v) => \A i \in 1..NS(v) : v.ss[i][1] <= 32767

Begin == /\ stack = <<>> /\ k < Len(Reqs)
         /\ k' = k + 1 /\ ns' = 0 /\ ng' = 0
         /\ LET q == Reqs[k + 1]
                w == Want(q.f)
                v == View(q.view)
            IN  /\ to' = w[2]
                /\ IF v.fmt # w[1]
                       THEN /\ bad' = bad \cup {<<IF w[1] = "NONE" THEN "truncated" ELSE IF v.fmt = "NONE" THEN "emptied" ELSE "format", q.f, v.fmt, w[1]>>}
                            /\ stack' = <<>>
                     ELSE IF v.fmt = "NONE" \/ q.view = w[2]
                       THEN UNCHANGED <<bad, stack>>
                     ELSE /\ bad' = bad \cup (IF v.fmt = "VANILLA" /\ ~Squeezed(v) THEN {<<"unsqueezed", q.f>>} ELSE {})
                                        \cup (IF Len(v.nodes) # Len(View(w[2]).nodes) \/ NS(v) # NS(View(w[2])) \/ NG(v) # NG(View(w[2]))
                                                THEN {<<"size", q.f, Len(v.nodes), NS(v), NG(v)>>} ELSE {})
                          /\ stack' = <<RootOf(v) \o RootOf(View(w[2]))>>
         /\ UNCHANGED c

T == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Give(x) == bad' = bad \cup {x} /\ stack' = <<>> /\ UNCHANGED <<ns, ng>>

Leaf == LET a == A.ss[T[2] + 1]  b == B.ss[T[4] + 1] IN
        IF a[2] # b[2] THEN Give(<<"run", R.f, T[2], a, b>>)
        ELSE IF a[1] + a[2] > NG(A) THEN Give(<<"runrange", R.f, T[2], a>>)
        ELSE IF \E i \in 1..a[2] : A.segs[a[1] + i] # B.segs[b[1] + i]
          THEN LET i == CHOOSE i \in 1..a[2] : A.segs[a[1] + i] # B.segs[b[1] + i]
               IN  Give(<<"seg", R.f, a[1] + i - 1, A.segs[a[1] + i], B.segs[b[1] + i]>>)
        ELSE /\ stack' = Rest /\ ns' = ns + 1 /\ ng' = ng + a[2]
             /\ bad' = IF Rest = <<>> /\ (ns + 1 # NS(A) \/ ng + a[2] # NG(A)) THEN bad \cup {<<"unreached", R.f, ns + 1, ng + a[2]>>} ELSE bad
Node == LET a == A.nodes[T[2] + 1]  b == B.nodes[T[4] + 1] IN
        IF a.g # b.g THEN Give(<<"node", R.f, T[2], a.g, b.g>>)
        ELSE stack' = Rest \o <<a.l \o b.l, a.r \o b.r>> /\ UNCHANGED <<ns, ng, bad>>

Step == /\ stack # <<>>
        /\ IF T[1] # T[3] THEN Give(<<"shape", R.f, T>>)
           ELSE IF T[1] = 1
             THEN IF T[2] >= NS(A) THEN Give(<<"child", R.f, T>>) ELSE Leaf
           ELSE IF T[2] >= Len(A.nodes) \/ Len(stack) > Len(A.nodes) + 1 THEN Give(<<"child", R.f, T>>) ELSE Node
        /\ UNCHANGED <<c, k, to>>
Next == Begin \/ Step
Spec == Init /\ [][Next]_vars

Done == k = Len(Reqs) /\ stack = <<>>
Conforms == Done => (bad = {} \/ (PrintT(<<"VV-BAD", c, bad>>) /\ FALSE))
=============================================================================
