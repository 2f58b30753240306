---------------------------- MODULE WadDirMCTrace ---------------------------
EXTENDS WadDirTrace
RealOrder == <<"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES",
               "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS">>
RealMust   == {"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"}
RealCreate == {"SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"}
=============================================================================
