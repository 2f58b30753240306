----------------------------- MODULE PipelineMC -----------------------------
(* Every interleaving of the pipeline for small archives and all options.    *)
EXTENDS Pipeline, IOUtils
Lump(n, i) == [n |-> n, i |-> i]
Names == <<"LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP">>
Std(at) == [j \in 1..9 |-> Lump(Names[j], at + j)]
Turned(at) == [j \in 1..9 |-> Lump(Names[10 - j], at + j)]
HexenLumps(at) == <<Lump("LINEDEFS", at + 1), Lump("VERTEXES", at + 2), Lump("SIDEDEFS", at + 3), Lump("SECTORS", at + 4),
                    Lump("REJECT", at + 5), Lump("BLOCKMAP", at + 6), Lump("SEGS", at + 7), Lump("SSECTORS", at + 8),
                    Lump("NODES", at + 9), Lump("THINGS", at + 10)>>
Level1(at, n, hexen, lumps) == [rejok |-> ~hexen, rejwas |-> "", rejgot |-> "", i |-> at, raw |-> FALSE, hexen |-> hexen, few |-> TRUE, sides |-> n, sectors |-> n, lumps |-> lumps]
Shapes == << <<Level1(0, 1, FALSE, Std(0))>>, <<Level1(0, 0, FALSE, Std(0))>>,
             <<Level1(0, 1, FALSE, Turned(0))>>, <<Level1(0, 1, TRUE, HexenLumps(0))>>,
             <<Level1(0, 1, FALSE, Std(0)), Level1(10, 1, FALSE, Turned(10))>>,
             <<Level1(0, 0, FALSE, Std(0)), Level1(10, 1, FALSE, Std(10))>> >>
Shape == Shapes[atoi(IOEnv.SHAPE)]
B == <<TRUE, FALSE>>
Pick(n) == LET k(m) == ((n \div m) % 2) + 1
               nags == <<"no", "alone", "more">>
               rejs == <<"build", "zero", "keep">>
           IN [dir |-> Shape, det |-> B[k(1)], nodes |-> B[k(2)], bm |-> B[k(4)], adv |-> B[k(8)],
               rnc |-> B[k(16)], fallback |-> B[k(32)], nag |-> nags[((n \div 64) % 3) + 1], rej |-> rejs[((n \div 192) % 3) + 1], trace |-> <<>>, lumps |-> <<>>]
All == [n \in 1..576 |-> Pick(n - 1)]
Sense(k) == /\ ~k.nodes => ~k.adv
            /\ ~k.adv => ~k.fallback
            /\ ~k.bm => ~k.rnc
            /\ k.rej # "build" => k.nag = "no"
Sensible == SelectSeq(All, Sense)
(* all of them, or every n-th *)
MCCases == LET n == atoi(IOEnv.EVERY)
               at == atoi(IOEnv.FIRST)
           IN [j \in 1..((Len(Sensible) - at) \div n + 1) |-> Sensible[(j - 1) * n + at]]
=============================================================================
