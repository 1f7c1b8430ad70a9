------------------------------- MODULE MCMerge -------------------------------
EXTENDS Merge, TLC, Json
Emit == k = 1 => PrintT("@C " \o ToJson([kind |-> kind, win |-> win]))
=============================================================================
