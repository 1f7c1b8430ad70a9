--------------------------- MODULE MCProcessing ---------------------------
EXTENDS Processing, Json
Emit == Len(hist) = Depth => PrintT("@C " \o ToJson([start |-> start, hist |-> hist]))
=============================================================================
