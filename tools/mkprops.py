import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    if len(title)>80: print(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ["output archive"],hook_needed=hook)))
p("P01","Everything outside the rebuilt levels reaches the output unchanged and in order",
 "Every lump of the input archive that does not belong to a level being rebuilt - including the lumps of levels that were filtered out, and of levels that cannot be rebuilt because a mandatory lump is missing - appears in the output archive with the same name, the same bytes and in the same relative order, and no extra entries appear; only the eject option leaves such lumps out. The archive keeps its kind (IWAD or PWAD). When no level can be rebuilt the program refuses and writes nothing.",
 ["inputs","configurations"],"all archives (any mix of levels, loose lumps, missing, duplicated or reordered level lumps) and all combinations of rebuild, filter, eject and output options",
 "The existing tests never build an archive; a directory-index error shows only for particular mixes of created, dropped and duplicated lumps before the lump in question.",
 ["wad.go","vigilantbsp.go","level.go"],[("directory scan","wad.go LoadWadDirectory"),("directory rewrite","wad.go UpdateDirectoryAndSchedule"),("raw copy loop","vigilantbsp.go main")])
p("P02","A rebuilt level is complete, canonically ordered, and touched only as asked",
 "Each rebuilt level is its marker followed by its lumps in canonical order (THINGS, LINEDEFS, SIDEDEFS, VERTEXES, SEGS, SSECTORS, NODES, SECTORS, REJECT, BLOCKMAP, then BEHAVIOR and SCRIPTS if present), each once, missing ones created and the last of several duplicates kept. Lumps that were not requested to be rebuilt, and THINGS, SIDEDEFS, SECTORS, BEHAVIOR and SCRIPTS always, keep their exact bytes. A zero-filled reject table has exactly the size its sector count requires and reads as zeros.",
 ["inputs","configurations"],"all levels with any order, absence or duplication of their lumps, and all combinations of -b -n -r -m --eject",
 "No test looks at lump order or at which lumps are rewritten; the property ranges over permutations and option combinations.",
 ["wad.go","level.go","trollgen.go"],[("canonical order","wad.go LUMP_SORT_ORDER"),("lump dispatch","level.go DoLevel"),("zero pool","trollgen.go")])
p("P03","The output is a well-formed archive: entries in bounds, no unintended sharing",
 "In every archive the program writes, the header describes a directory that lies inside the file, every non-empty lump lies inside the file, and no two of header, directory and lumps overlap. The only sharing allowed is between zero-filled reject tables (and zero bytes that are stored anyway), and then no two of them start at the same offset.",
 ["inputs","configurations"],"all archives and options, in particular any number and sizes of zero-filled reject tables and whether the first lump is empty",
 "Overlaps depend on arithmetic over all levels' sector counts and the zero bytes of the header; no test writes an archive.",
 ["vigilantbsp.go","trollgen.go","writebus.go","lumpwrite.go"],[("zero pool placement","vigilantbsp.go main, reusableFromHeader"),("offset dealiasing","trollgen.go Compile/PopOffset"),("write cursor","lumpwrite.go")])
p("P04","A failed or interrupted run never costs the user the archive",
 "While rebuilding in place, the original archive stays byte-identical until a complete new archive exists on disk, and at every later instant at least one complete copy (old or new) exists. If reading, building or writing fails, the program exits with a failure status, does not claim success, and leaves the original archive complete; it leaves no temporary file behind when it could remove it; an output path that is the input file under any name is refused.",
 ["crash_points","fault_sequences"],"every point at which the process can be killed and every system call on the involved files that can fail, for in-place and -o runs",
 "Tests inject no faults and never run the program; the property quantifies over kill points and I/O errors.",
 ["filecontrol.go","vigilantbsp.go","writebus.go","lumpwrite.go"],[("temp file life cycle","filecontrol.go OpenOutputFile/Success/tempFileReplacesInput/Shutdown"),("same-file check","vigilantbsp.go main")],["file system after exit or kill","exit status"])
p("P05","The blockmap lists each line in exactly the blocks it passes through",
 "For every collision line and every 128x128 block whose area the line passes through, the block's list in the generated BLOCKMAP contains the line, so no moving thing can pass through it; a block's list never contains a line that stays clear of the block, nor the same line twice. Lines are left out only when the map or the options ask for it (tag 999, effect-only dummy lines, non-collidable lines with -br).",
 ["inputs","configurations"],"all maps (any line direction, slope, negative coordinates, lines along block borders) and all blockmap options",
 "Tests cover no blockmap generation; a missed block shows only for particular slopes and offsets.",
 ["blockmapgen.go","blockity.go"],[("line rasterisation","blockity.go GetBlocks / blockmapgen.go"),("line exclusion","blockmapgen.go BlockmapGenerator")])
p("P06","The BLOCKMAP lump is decodable, compact, within limits, at the best offset tried",
 "The BLOCKMAP lump covers all lines, every block points inside the lump at a list that ends with the terminator (and starts with the header word expected by the chosen header mode), identical lists are stored once and, with subset compression, a list that is the tail of another shares its storage without changing what any block contains. If the map cannot be expressed within the selected size limit the lump is empty rather than wrong; when several offsets are tried the one kept is the smallest of them.",
 ["inputs","configurations"],"all maps and all combinations of header, compression, end-goal and offset options",
 "Tests do not exercise compression or limits; sharing errors need particular sets of overlapping lists.",
 ["bblocks.go","blockmapgen.go","config.go"],[("list merging and subset packing","bblocks.go CreateBlockmap"),("offset search","blockmapgen.go"),("limits","blockmapgen.go, config BlockmapEndGoal")])
p("P07","The node tree is a well-formed binary partition of all subsectors",
 "Every node's two children are nodes or subsectors that exist; every node except the root and every subsector is reachable from the root exactly once, and the root is the last node. Every subsector is a non-empty contiguous run of segs, the runs cover all segs once and in order, and each child bounding box contains all segs of its subtree.",
 ["inputs","configurations"],"all maps, all partition algorithms, tree modes, node orders and node formats",
 "Tests check helper functions of partition selection only; tree shape depends on the whole map and option set.",
 ["nodegen.go","znodegen.go","node_outro.go","node_rearrange.go","multitree_plain.go","multiformat_tree.go"],[("tree build","nodegen.go CreateNode"),("reverse numbering","node_rearrange.go / node_outro.go")])
p("P08","Segs cover every rendered wall exactly once, with correct side, angle and offset",
 "For every side of every line that is to be rendered, the segs of that line and side join end to end from the line's start to its end for that side without gap, overlap or wrong direction; each seg's offset is its distance along the line and its angle is the line's direction; sides not to be rendered have no segs. All referenced vertices exist, and the original vertices keep their coordinates and line attachments apart from removal of unused ones.",
 ["inputs","configurations"],"all maps, partition algorithms, tree modes and node formats",
 "No test builds segs; a seg lost or duplicated by a split needs a particular combination of crossing lines.",
 ["node_intro.go","nodegen.go","znodegen.go","node_vmap.go","picknode.go"],[("initial segs","node_intro.go createSegs"),("splits","nodegen.go DivideSegs/SplitSeg")])
p("P09","Walking the node tree to any point inside the map finds that point's sector",
 "For every point strictly inside a sector and away from walls and partition lines, descending the node tree by side tests ends in a subsector whose segs face that same sector, and every seg of that subsector has the point on its front side (except for a line drawn inside a single sector, which may lie in a subsector with both its sides), that is each subsector is a convex piece of one sector.",
 ["inputs","configurations"],"all closed maps, all points, all partition algorithms, tree modes and node formats",
 "The tests contain no map; correctness of point location is a statement over all points of all maps.",
 ["nodegen.go","znodegen.go","picknode.go","convexity.go","zenscore.go","multitree_plain.go"],[("side classification","picknode.go / nodegen.go doLinesIntersect"),("convexity test","convexity.go, nodegen.go")])
p("P10","Every node format holds the same tree, upgraded exactly when needed",
 "With the same map and options, vanilla and DeeP nodes hold the same tree, and so do extended nodes whether compressed or not and at whatever compression level, differing only in what the format itself can represent. A fallback format gives exactly vanilla nodes when the map fits them and otherwise exactly what asking for that format gives; with vanilla only, a map over a limit (leaves, vertices, segs) gets empty node lumps, never truncated or wrapped ones, and a map that fits is neither emptied nor upgraded.",
 ["inputs","configurations"],"all maps and node format options, including maps on both sides of each format limit",
 "Tests do not encode nodes at all; limits lie at 32768/65536 entries.",
 ["node_outro.go","znodegen.go","nodegen.go","zstream.go","zdefs.go"],[("format writers","node_outro.go, znodegen.go"),("upgrade decision","nodegen.go")])
p("P11","The reject table never hides a pair of sectors that can see each other",
 "If a beam of sight one map unit wide passes only through two-sided lines, no two of the sectors it goes through are marked hidden from each other; a sector always sees itself and its neighbours across two-sided lines, and in the default mode a sector having a two-sided line with that sector on both sides is seen by all. The table has exactly the required size and is symmetric when built without special effects; option -rz gives an empty table of that size.",
 ["inputs","configurations"],"all maps and reject options without a special effects file",
 "No test builds a reject table; visibility quantifies over all pairs of points of all pairs of sectors.",
 ["reject.go","rejectFAST.go","rejectSYMM.go","rejectLOS.go","rejectDFS.go","selfref.go"],[("line of sight tests","rejectLOS.go"),("graph pruning","rejectDFS.go"),("self-referencing groups","selfref.go")])
p("P12","The reject table hides what is provably invisible, whichever algorithm is used",
 "On maps with two-sided lines between sectors, built without special effects: sectors of parts of the map not connected by any chain of two-sided lines are hidden from each other (graph shortcut on), and a pair of sectors is hidden when no straight line, even one grazing the ends of walls, joins a two-sided boundary line of one to one of the other without crossing a wall. The table is the same with --nosymm and without.",
 ["inputs","configurations"],"all maps without two-sided lines that have the same sector on both sides; -rg, -rs and --nosymm",
 "Equivalence of four algorithm variants over all maps is not sampled by any test.",
 ["reject.go","rejectFAST.go","rejectSYMM.go","rejectDFS.go"],[("graph algorithm","rejectDFS.go"),("variants","rejectFAST.go, rejectSYMM.go")])
p("P13","Reject effects files change exactly the pairs their commands name",
 "With an effects file, the reject table equals the plain one modified by its BLIND, SAFE, INCLUDE, EXCLUDE, VORTEX, LENGTH, DISTANCE, GROUP, INVERT and BAND commands as documented: distance-based blindness counts sector steps, INCLUDE overrides blindness, EXCLUDE overrides everything, and pairs no command names are untouched. Commands given for one map never affect another.",
 ["inputs","programs"],"all effects files (programs over the commands, in any order and combination) and all maps",
 "The tests parse single commands; none evaluates the resulting table or combinations of commands.",
 ["rejectRMB.go","rmbparse.go","rmbunit.go","rejectdefs.go"],[("effect application","rejectRMB.go"),("frames","rmbunit.go")])
p("P14","An effects file is parsed as meant or rejected whole, before any output",
 "A syntactically valid effects file is accepted regardless of letter case, unique-prefix abbreviation, spacing, brackets and comments, and all such spellings mean the same. A file with a syntax error is reported and the run stops with a failure status before touching the output; no effects file makes the program crash or hang.",
 ["programs","inputs"],"all texts offered as an effects file",
 "Tests hold a dozen fixed command lines; acceptance is over all texts.",
 ["rmbparse.go","rmbunit.go","filecontrol.go"],[("parser","rmbparse.go"),("load and abort","filecontrol.go LoadAssociatedRMB")],["exit status","output archive"])
p("P15","Special line effects do what the manual says and nothing else",
 "Lines with the builder's special actions or reserved tags get exactly the documented treatment - scroll speed copies, seg rotation relative or absolute in degrees or BAM, omission of front, back or all segs, exclusion from rendering or from the blockmap - and all other lines are unaffected. Line numbers in segs and blockmap refer to the lines actually written.",
 ["inputs","configurations"],"all maps with special lines, with any combination of rebuilt lumps and node format",
 "Not covered by tests; interactions of line renumbering with blockmap and nodes depend on the option set.",
 ["gamespec.go","node_intro.go","universal_interfaces.go","level.go","blockmapgen.go"],[("scrollers","gamespec.go RefreshScrollerSpeed"),("seg effects","node_intro.go addSegsPerLine")])
p("P16","In deterministic mode the output is a function of input and options only",
 "With -d, repeated runs on the same input with the same options produce byte-identical archives whatever the number of threads, scheduling or machine load; without it the lumps still have the same content wherever the algorithm has no ties to break, and options documented as affecting only performance do not change the result.",
 ["schedules","configurations"],"all interleavings and thread counts, all inputs",
 "A test runs one schedule; determinism is a statement over all of them.",
 ["level.go","blockmapgen.go","multitree_plain.go","reject.go","picknode.go"],[("ordered writing","level.go WaitForAndWriteData"),("tie breaking","blockmapgen.go, multitree_plain.go")])
p("P17","The worker pipeline never deadlocks, races, drops or duplicates a lump",
 "For every map and every combination of enabled builders the concurrent pipeline terminates, each lump of the level is written exactly once with its complete data at the place the directory says, the internal line map is created at most once and its keeper and all other helpers end when nobody needs them, and the writes of one level finish before the next level starts.",
 ["schedules","configurations"],"all interleavings of the level's goroutines, all builder combinations, any relative speed",
 "Tests run no pipeline; deadlocks and lost messages depend on the schedule.",
 ["level.go","writebus.go","solidblocks.go","blockmapgen.go","multitree_plain.go","reject.go"],[("write bus","writebus.go"),("solid blocks protocol","solidblocks.go"),("collector","level.go WaitForAndWriteData"),("hive","multitree_plain.go")],["hook trace","output archive"],"trace points at channel operations, build tag verif")
p("P18","When several trees or offsets are tried, the best one is kept",
 "In multi-tree mode the tree written is, among the trees of all root candidates considered, the best by the documented order (fitting the node format, no precious line split, fewer subsectors, smaller height difference, smaller height, fewer segs, smaller candidate number); the candidates are one line of each collinear group of the kind asked for, and neither the number of workers nor the order in which trees are finished changes the result.",
 ["inputs","schedules"],"all maps, candidate sets and completion orders of the workers",
 "No test runs multi-tree mode; the winner must not depend on which worker finishes first.",
 ["multitree_plain.go","nodegen.go"],[("comparison","multitree_plain.go isBetter"),("root candidates","multitree_plain.go")])
p("P19","Rebuilding the output again changes nothing that matters",
 "Running the program on its own output with the same deterministic options gives a level with the same things, sides, sectors, lines and line geometry, the same blockmap and reject table and a node tree of the same quality; vertices added by an earlier build do not accumulate.",
 ["histories","inputs"],"all inputs and all histories of repeated rebuilds, including with changing options in between",
 "No test runs the program twice.",
 ["node_vmap.go","universal_interfaces.go","level.go"],[("unused vertex pruning","universal_interfaces.go PruneUnusedVertices")])
p("P20","The command line means what the manual says, and nonsense is refused untouched",
 "Documented options in any order, grouping and repetition have their documented effect, and settings of one part (blockmap, nodes, reject) do not affect the lumps of another. An unknown option, a missing value, a second input, a missing input or one that is no archive, or an archive without levels, makes the program exit with failure and an explanation, without creating or changing any archive; a malformed part of a known option is reported and never silently taken for something else. No argument list and no input file makes it crash.",
 ["inputs","configurations"],"all argument lists; all input files",
 "The tests never call the option parser; the space of argument strings is unbounded.",
 ["cmdparser.go","config.go","vigilantbsp.go"],[("option parser","cmdparser.go"),("defaults","config.go")],["exit status","effective configuration observed through output"])
p("P21","Reusing an existing reject table is exact, checked, and never silently stale",
 "When an effects file asks not to recompute the reject table, the output carries the named existing table (own or from another archive or map) with only the listed effects applied, provided its size fits the map and all stated assertions hold; otherwise the table is rebuilt from scratch. The decision never depends on timing or on other levels in the archive.",
 ["programs","inputs","schedules"],"all effects files with NOPROCESS and ASSERT commands, all source archives, with or without determinism",
 "Tests only parse the command; the fallback protocol between builder and collector is not exercised.",
 ["rejectRMB.go","reject.go","level.go","filecontrol.go"],[("nag protocol","level.go handleRejectNagging"),("assertions","rejectRMB.go"),("external archive","filecontrol.go PinExternalWad")])
p("P22","Damaged or arbitrary level data never crashes the builder or leads it astray",
 "A chosen level with references to vertices, sides or sectors that are not there, or with more lines than the format can number, is refused by a message naming the level, with the input untouched and no temporary file left. Any level whose references resolve, whatever its geometry, is built completely by every algorithm and option, and the lumps written refer only to records that are there. Levels not chosen are carried over untouched whatever their state.",
 ["inputs","configurations"],"all level data and all options",
 "Tests contain no damaged level and none with degenerate geometry.",
 ["level.go","nodegen.go","reject.go","blockmapgen.go"],[("reference check","level.go verifyReferences"),("degenerate geometry","nodegen.go, multitree_plain.go, reject.go")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
