----------------------- MODULE MCNeighbourDotProducts -----------------------
EXTENDS NeighbourDotProducts, TLC, Json
Emit == (todo = 1..Len(chunks)) =>
          PrintT("@C " \o ToJson([n |-> n, w |-> w, chunks |-> chunks]))
=============================================================================
