---------------------------- MODULE MCIntensity ----------------------------
EXTENDS Intensity, TLC, Json
Emit == (last = "none" /\ p[1] <= p[2]) => PrintT("@C " \o ToJson([p |-> p]))
=============================================================================
