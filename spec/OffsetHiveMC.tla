---------------------------- MODULE OffsetHiveMC ----------------------------
(* All ways in which small numbers of offsets can turn out, every interleaving. *)
EXTENDS OffsetHive, IOUtils
N == atoi(IOEnv.OFFSETS)
X(cls, size, nz, skip) == [cls |-> cls, size |-> size, nz |-> nz, skip |-> skip]
Values == <<X(0, 1, 0, FALSE), X(0, 2, 0, FALSE), X(0, 2, 1, FALSE), X(1, 2, 0, FALSE), X(2, 3, 0, FALSE), X(1, 1, 0, TRUE)>>
NV == Len(Values)
RECURSIVE Pow(_, _)
Pow(a, b) == IF b = 0 THEN 1 ELSE a * Pow(a, b - 1)
(* the n-th choice; the first offset is never skipped *)
Choice(n) == [k \in 1..N |-> LET v == (n \div Pow(NV, k - 1)) % NV IN Values[IF k = 1 /\ v = NV - 1 THEN 1 ELSE v + 1]]
Modes == <<[det |-> TRUE, e |-> 0], [det |-> TRUE, e |-> 1], [det |-> TRUE, e |-> 2],
           [det |-> FALSE, e |-> 0], [det |-> FALSE, e |-> 1], [det |-> FALSE, e |-> 2]>>
Pick(n) == [val |-> Choice(n \div 6), det |-> Modes[(n % 6) + 1].det, e |-> Modes[(n % 6) + 1].e, n |-> atoi(IOEnv.BEES), trace |-> <<>>, final |-> <<>>]
MCCases == LET all == 6 * Pow(NV, N)
               s == atoi(IOEnv.EVERY)
               f == atoi(IOEnv.FIRST)
           IN [j \in 1..((all - 1 - f) \div s + 1) |-> Pick((j - 1) * s + f)]
=============================================================================
