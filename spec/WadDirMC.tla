------------------------------ MODULE WadDirMC ------------------------------
(* Small instance of WadDir: three canonical lumps, one of them mandatory.   *)
EXTENDS WadDir
MCOrder  == <<"LINEDEFS", "SEGS", "REJECT">>
MCMust   == {"LINEDEFS"}
MCCreate == {"SEGS", "REJECT"}
MCMarkers == {"MAP01", "MAP02"}
MCAlphabet == MCMarkers \cup {"LINEDEFS", "SEGS", "REJECT", "XX"}
MCOpts == {[blockmap |-> TRUE, nodes |-> n, reject |-> r, eject |-> e, filter |-> f, maps |-> {"MAP01"}] :
            n \in BOOLEAN, r \in {"build", "zero", "keep"}, e \in BOOLEAN, f \in {"all", "only", "except"}}
=============================================================================
