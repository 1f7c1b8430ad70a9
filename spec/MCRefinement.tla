--------------------------- MODULE MCRefinement ---------------------------
EXTENDS Refinement, TLC, Json
First == todo = 1..NBlocks(Len(Gather(pts)), chunk)
Emit == First => PrintT("@C " \o ToJson([pts |-> pts, chunk |-> chunk, nc |-> nc]))
===========================================================================
