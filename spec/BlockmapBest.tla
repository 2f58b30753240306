---------------------------- MODULE BlockmapBest ----------------------------
(* The search over offsets.  C.cand[k] = what the program writes when told to *)
(* use exactly the k-th offset of the documented series (Y outer, X inner);   *)
(* C.best = what it wrote when told to search.  The search is specified as    *)
(* the single-threaded crunch over the series with the documented order of    *)
(* preference; any thread count must end with an equally good result, and in  *)
(* deterministic mode with exactly that one.                                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, best
vars == <<c, i, best>>
C == Cases[c]
K == C.cand

(* class: 0 fits signed offsets, 1 fits unsigned offsets, 2 does not fit *)
Class(x) == IF x.size = 0 THEN 2 ELSE IF x.maxoff > 32767 THEN 1 ELSE 0
NonZero(x) == IF C.preferzero /\ x.hdr # 0 THEN 1 ELSE 0
Better(x, y) == \/ Class(x) < Class(y)
                \/ Class(x) = Class(y) /\ x.size < y.size
                \/ Class(x) = Class(y) /\ x.size = y.size /\ NonZero(x) < NonZero(y)
Init == c \in 1..Len(Cases) /\ i = 1 /\ best = 1
Try == /\ i < Len(K)
       /\ i' = i + 1
       /\ best' = IF Better(K[i + 1], K[best]) THEN i + 1 ELSE best
       /\ UNCHANGED c
Next == Try
Spec == Init /\ [][Next]_vars

Result == K[best]
Same == IF ~C.full THEN ~Better(Result, C.best)   \* the candidates are a sample of the series
        ELSE IF Class(Result) = 2 THEN C.best.size = 0
        ELSE IF C.det THEN C.best.sum = Result.sum
        ELSE \E k \in 1..Len(K) : K[k].sum = C.best.sum /\ ~Better(Result, K[k])
Bad == IF i < Len(K) \/ Same THEN {} ELSE {<<"notbest", C.best.size, Result.size>>}
Conforms == Bad = {} \/ (PrintT(<<"VV-BAD", c, Bad>>) /\ FALSE)
=============================================================================
