fixed("P02", "2035f13", "panic when a missing lump with a short name had to be added to a level", "P02:crash")
fixed("P02", "d06718e", "the size of the existing REJECT was looked up by position in the schedule, not in the directory", "P02:size")
fixed("P01", "dbad99d", "a SCRIPTS lump of a level was dropped from the output", "P01:missing")
fixed("P02", "ebfd2e1", "a level with the same lump twice shifted all directory entries after it", "P02:order")
fixed("P03", "647de2e", "the directory was written over lump data when the first lump was empty", "P03:overlap")
fixed("P15", "9bbc212", "BSPNOSEG on the back side was ignored, and on the front side it removed the segs of both sides", "P15:unrendered")
fixed("P15", "a4e289c", "two scrolling walls that changed speed in one run: lines of other walls were removed, copies were drawn, or the program crashed", "P15:lines")
fixed("P15", "dd14bd8", "a scrolling wall targeted by a remote scroller listed before it was removed from the map as if it were a copy", "P15:unrendered")
fixed("P15", "eb71f95", "panic in the detail heuristic when lines that are not rendered lie outside the rendered part", "P15:crash")
fixed("P15", "bd02430", "nil dereference when the whole map renders a single seg", "P15:crash")
fixed("P10", "06dfad8", "65536 or more subsectors passed for fitting vanilla nodes, and the leaf numbers wrapped", "P10:limit")
fixed("P10", "c91814b", "more than 65536 vertices with vanilla nodes only gave broken nodes instead of empty ones", "P10:limit")
fixed("P11", "2995b34", "reject of a map without two-sided lines between sectors hid sectors from themselves", "P11:hidesself")
fixed("P11", "ec87225", "self-referencing sector was hidden from the sector around it when that one had a lower number", "P11:hidessly")
fixed("P11", "5fd5740", "sectors were hidden from each other when a line of sight region was divided right next to its corner", "P11:hidesvisible")
fixed("P11", "6b31783", "wrong end of a solid line was taken as an obstacle to sight", "P11:hidesvisible")
fixed("P11", "82c939d", "region between two lines was divided by the line that had to be divided: sectors with sight of each other were hidden, sectors without left visible", "P11:hidesvisible")
fixed("P11", "7a25d67", "rounding of the point where a line of sight region is divided could put it behind a wall", "P11:hidesvisible")
fixed("P13", "efd623b", "BLIND together with INVERT BLIND hid the wrong sectors, INVERT BAND hid everything", "P13:hides")
fixed("P14", "71f9889", "INVERT without an option crashed, or inverted the command before it", "P14:crash")
fixed("P14", "6223421", "a map marker the program does not support (MAP123) was reported as an error but taken", "P14:takesinvalid")
fixed("P13", "3a7a530", "negative sector number in GROUP crashed the program", "P13:crash")
fixed("P13", "2cd4044", "LINE with a number over 65535 made another line opaque", "P13:hides")
fixed("P13", "00a7e36", "DISTANCE compared a distance with a squared one where lines face each other", "P13:shows")
fixed("P13", "65a2d8a", "DISTANCE hid sectors that only one sector lies between", "P13:hides")
fixed("P13", "c580aa3", "sectors next to a member of a GROUP stayed hidden from the rest of it, with DISTANCE or LINE", "P13:hides")
fixed("P21", "fe7e9cd", "NOPROCESS that names the input archive crashed or copied another lump", "P21:crash")
fixed("P21", "3ad1b3a", "NOPROCESS with a file that is no archive crashed, with one that cannot be opened ended the program", "P21:crash")
fixed("P21", "afd8cf0", "BLIND 0/1 and SAFE 0/1 had no effect under NOPROCESS when a BLIND or SAFE that needs distances was present", "P21:shows")
fixed("P13", "18d5c76", "the square of a huge DISTANCE overflowed", "P13:hides")
fixed("P20", "b70c39d", "a lump count that does not fit the file made the program allocate up to 64 GB (input archive and NOPROCESS archive)", "P20:memory")
fixed("P04", "5351756", "errors writing lumps and the directory were ignored, and an incomplete archive replaced the input", "P04:ending")
fixed("P04", "84827bf", "temporary file, by then the only complete copy, was deleted when copying it over the input had failed", "P04:lost")
fixed("P04", "f31fd79", "exit status of success and temporary file left when closing files or replacing the input had failed", "P04:ending")
fixed("P04", "2ae4521", "temporary file left behind when its header could not be written", "P04:ending")
fixed("P04", "3d6177a", "errors reading lumps (truncated archive, I/O error) were ignored and zeroes written in their place", "P04:ending")
fixed("P20", "286b1a5", "an empty argument made the program ignore every argument after it (such as -o), and a lone hyphen was ignored", "P20:taken")
fixed("P20", "f3af0fc", "--cpuprofile and --memprofile as the last argument crashed", "P20:crash")
fixed("P20", "2c6ca17", "-nc without a value crashed", "P20:crash")
fixed("P20", "bca4248", "an unknown argument that starts with -! was ignored", "P20:taken")
fixed("P20", "c2e05f9", "--stknodefoo, --stknode=1x and the like were taken for the options they begin with", "P20:taken")
fixed("P20", "105f17b", "garbage after -v was ignored without a message", "P20:notreported")
fixed("P20", "6de562f", "-bo=x, without y was taken for the offset mode of that number, offsets over 65535 wrapped around", "P20:offset")
fixed("P20", "16121ab", "hash printed by --hashlump for nodes in DeeP format left out the signature", "P20:wronghash")
fixed("P22", "ca9decb", "grid of a large map, counted with cells the offsets may add, wrapped around at 65536 and crashed the builder", "P22:crash")
fixed("P22", "784fcd3", "reject builder crashed at a line flagged two-sided with one sidedef near a self-referencing sector", "P22:crash")
fixed("P22", "f3d9ff8", "-bs crashed when all blocklists of a large map were empty", "P22:crash")
fixed("P22", "ac7dee2", "crash when the table of blocks alone exceeds the greatest addressable blockmap", "P22:crash")
fixed("P22", "0c18fde", "multi-tree mode crashed without linedefs of the kind requested for root", "P22:crash")
fixed("P22", "0df16cc", "multi-tree mode with --roots crashed when no line was good enough", "P22:crash")
fixed("P22", "ff55673", "references to missing vertices, sidedefs or sectors crashed the builder and left a temporary file", "P22:crash")
fixed("P22", "9010925", "linedefs and vertices lost from a level without sidedefs or sectors", "P22:changed")
fixed("P22", "498e390", "more than 65535 linedefs, given or added for scrolling walls, were numbered from zero again", "P22:crash")
fixed("P22", "be26d98", "reject builder crashed when all one-sided lines have zero length", "P22:crash")
fixed("P22", "e1aa9e8", "multi-tree mode with --roots crashed when no line could be scored", "P22:crash")
fixed("P22", "e1b055f", "nodes and reject directory entries of a level with nothing to build from led to unrelated data", "P22:changed/undecodable")
fixed("P17", "9a3b499", "after an early blockmap was delivered the generator went on and then waited for ever to deliver another", "P17:unfinished")
fixed("P17", "6bcc988", "control of the map of solid lines, and the map, were kept for ever when nodes switched to a Zdoom format or a level had nothing to build from", "P17:unfinished")
known("P11", "P11:nested", "a sector inside of a self-referencing ring is hidden from the sectors around the ring, which see it (default mode s=0)")
