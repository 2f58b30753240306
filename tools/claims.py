HOOKS = dict(guard="verif", enable="go build -tags verif", source_commits=["e8bc88ec87cd69ab9b943664676f44ce5ada2fef", "6795d62bce859e79a52698ebb3e148519bff4257"])
NOTES = "All checks rebuild /repo's working tree. Specifications in spec/*.tla, checked with TLC; see DESIGN.md."
NA = {}
CLAIMS = {
 "P01": ("checks/waddir.py P01", "TLA+ directory scanner (WadDir.tla): exhaustive TLC model + trace validation of recorded runs", "model_checking",
   "The scanner model is checked exhaustively over all directories up to 5 (quick) entries; 500 real archives are run through the program and each output directory is compared with the model entry by entry. Trusts the harness's archive reader."),
 "P02": ("checks/waddir.py P02", "TLA+ directory scanner (WadDir.tla): exhaustive TLC model + trace validation of recorded runs", "model_checking",
   "As P01, for the clauses about rebuilt levels."),
 "P03": ("checks/waddir.py P03", "TLA+ layout specification (Container.tla): recorded archives replayed region by region in TLC", "model_checking",
   "Every recorded archive is laid out byte range by byte range in the model; bounds and overlap are decided by TLC."),
 "P05": ("checks/blockmap.py P05", "TLA+ blockmap reader (Blockmap.tla): every recorded lump is walked block by block in TLC against the line geometry", "model_checking",
   "Random maps times blockmap options; the specification decides for each line and block whether the line must, may or may not be listed. Diagonal lines get 1 unit of rasteriser slack."),
 "P06": ("checks/blockmap.py P06", "TLA+ blockmap reader and offset search (Blockmap.tla, BlockmapBest.tla), recorded lumps validated in TLC", "model_checking",
   "As P05 for layout, header, limits (maps sized to within a few words of the 65535 offset limit) and the choice among offsets, where every candidate offset is run separately."),
 "P07": ("checks/bsp.py P07", "TLA+ engine model (Bsp.tla): the descent over every recorded node tree is replayed in TLC", "model_checking",
   "Random maps times node options (algorithm, tree mode, format, numbering, --stknode). Split points are compared within the rounding of the format."),
 "P08": ("checks/bsp.py P08", "TLA+ engine model (Bsp.tla): chains of segs per line side followed in TLC, lines and vertices compared", "model_checking",
   "As P07; includes self-referencing sectors, doubled and zero-length lines, culling options (choice left open only where the manual leaves it open)."),
 "P09": ("checks/bsp.py P09", "TLA+ engine model (Bsp.tla): point descents on recorded trees, sectors known from the generator", "model_checking",
   "Closed maps; 40 points per map at least 4 units away from lines; the generator knows the sector of each."),
 "P15": ("checks/special.py P15", "TLA+ scroller model (Scroll.tla) with the engine model (Bsp.tla) and the blockmap reader (Blockmap.tla), on recorded runs over several generations", "model_checking",
   "Maps with the builder's own actions and tags, up to three runs in a row with speeds changed in between."),
 "P10": ("checks/format.py P10", "TLA+ format model (BspFmt.tla): trees recorded in all formats compared seg by seg in TLC, with the limits of each format", "model_checking",
   "Random maps in all formats and fallbacks; maps built to sit on both sides of the 32768 leaves, 65536 vertices and 65535 segs limits."),
 "P11": ("checks/reject.py P11", "TLA+ sight specification (RejSight.tla): beams of sight decided exactly in TLC against recorded reject tables", "model_checking",
   "Random maps times reject options; beams are proposed by the harness and each is verified in TLC (clear, a unit wide) before it counts. Sectors nested in self-referencing rings are a known finding."),
 "P12": ("checks/reject.py P12", "TLA+ sight specification (RejSight.tla): a grazing line for every pair left visible, decided exactly in TLC", "model_checking",
   "Random maps times reject options; a pair that the table leaves visible needs a weakly clear line through two vertices, which TLC verifies. The search for such lines over all vertex pairs is the harness's."),
 "P13": ("checks/rmb.py P13", "TLA+ semantics of effects files (Rmb.tla) and sight (RejSight.tla): recorded reject tables compared with the model pair by pair in TLC", "model_checking",
   "Random effects files (all commands, combinations, several maps per file) times random maps times reject options; the model has the parser and the meaning of the commands. Combinations the manual leaves open are not judged. LINE is judged with beams of sight."),
 "P14": ("checks/rmb.py P14", "TLA+ grammar of effects files (Rmb.tla) decides acceptance in TLC for recorded runs", "model_checking",
   "Valid files in random spelling and mutated ones; acceptance, the report and the effect of each are compared with the model."),
 "P21": ("checks/rmb.py P21", "TLA+ semantics of reused reject tables (Rmb.tla): recorded tables compared with the model in TLC", "model_checking",
   "NOPROCESS in all forms with own, foreign, missing, broken and wrong-sized tables, with ASSERT commands, with and without -d."),
 "P04": ("checks/life.py", "TLA+ file life cycle (FileLife.tla): exhaustive TLC model with faults and deaths + validation of traces of runs with one operation failed, cut short or last", "model_checking",
   "Every file operation of runs in place and with -o is failed with several errors, shortened, or preceded by the death of the program (own ptrace tool); the states of the disk after each operation are checked against the model."),
 "P20": ("checks/cli.py P20", "TLA+ model of the command line (Cli.tla) and of archives (Archive.tla): recorded runs compared with the model in TLC", "model_checking",
   "Random argument lists of all documented options, valid, mangled and combined, and random archives, valid, cut and mangled; the model says what is refused and what reported, and pairs of runs show the effect of options. Spellings the manual leaves open are not judged."),
 "P22": ("checks/refs.py P22", "TLA+ reference resolution (Refs.tla): levels with damaged references and with arbitrary geometry, recorded runs judged in TLC", "model_checking",
   "Random lines between random vertices, drawn maps with spoiled references, cut and missing lumps, too many lines, times 60 options. The model resolves each reference and says whether the level must be built or refused; lumps written are followed reference by reference."),
 "P16": ("checks/determ.py P16", "TLA+ model of the search for a blockmap offset by several workers (OffsetHive.tla): all interleavings in TLC, recorded searches replayed against it; groups of runs that must agree judged in TLC (Determ.tla)", "model_checking",
  "In every interleaving of a few workers over a few offsets with any outcome the result is that of trying one by one; recorded searches, many near the size limits of formats, are behaviours of the same model; runs with any number of threads, injected delays and options that concern speed only give the same archive. Searches for a root are P18."),
 "P17": ("checks/pipe.py P17", "TLA+ model of all goroutines of level processing (Pipeline.tla): every interleaving checked by TLC, and recorded event traces of the real program validated against it in TLC", "model_checking",
  "no deadlock, every lump once, order in deterministic mode, queue capacities and termination in all interleavings of small archives with all option choices; traces of random archives and options with injected delays are behaviours of the same specification. Shapes of archives in the interleaving model are small (1-2 levels); data races are additionally looked for with Go's race detector, which sees only schedules that happened"),
 "P18": ("checks/best.py P18", "TLA+ hive of the multi-tree mode (RootHive.tla): recorded arrival orders and the tree of every candidate replayed in TLC", "model_checking",
   "Random maps times multi-tree options; every candidate root is also built alone (through a hook), and the model decides from the recorded trees and arrival order which one had to be kept, and whether the candidates were the documented ones. Includes maps at the limits of the vanilla format."),
}
