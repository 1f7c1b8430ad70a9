----------------------------- MODULE MCSession -----------------------------
EXTENDS Session, TLC, Json
Emit == Len(hist) = Depth => PrintT("@C " \o ToJson([start |-> start, hist |-> hist]))
============================================================================
