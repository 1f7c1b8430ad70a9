---------------------------- MODULE MCIsolation ----------------------------
EXTENDS Isolation, Json
Emit == Len(hist) = Depth => PrintT("@C " \o ToJson([hist |-> hist]))
=============================================================================
