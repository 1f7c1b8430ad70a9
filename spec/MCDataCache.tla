---------------------------- MODULE MCDataCache ----------------------------
EXTENDS DataCache, TLC, Json
Emit == (Len(hist) = MaxEvents /\ pc = "idle") => PrintT("@C " \o ToJson([kind |-> kind, pkg |-> pkg, hist |-> hist]))
=============================================================================
