----------------------------- MODULE MCDetector -----------------------------
EXTENDS Detector, TLC, Json
Emit == Len(hist) = MaxH => PrintT("@C " \o ToJson([h |-> hist]))
=============================================================================
