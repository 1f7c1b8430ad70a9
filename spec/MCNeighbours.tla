---------------------------- MODULE MCNeighbours ----------------------------
EXTENDS Neighbours, TLC, Json
\* Every initial state is a case to be replayed on the implementation
Emit == (todo = 1..Len(chunks)) =>
          PrintT("@C " \o ToJson([n |-> n, w |-> w, chunks |-> chunks]))
=============================================================================
