---------------------------- MODULE MCSaveFiles ----------------------------
EXTENDS SaveFiles, TLC, Json
Emit == Len(hist) = MaxEvents => PrintT("@C " \o ToJson([hist |-> hist]))
=============================================================================
