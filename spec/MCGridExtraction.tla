------------------------- MODULE MCGridExtraction -------------------------
EXTENDS GridExtraction, TLC, Json
First == start = Min({a \in Range0(n) : Fits(a, step, n, g) /\ Centered(a, step, n, g)})
Emit == (taken = <<>> /\ step = 1 /\ First) => PrintT("@C " \o ToJson([n |-> n, g |-> g]))
===========================================================================
