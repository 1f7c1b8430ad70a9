------------------------- MODULE MCVirtualImaging -------------------------
EXTENDS VirtualImaging, TLC, Json
Emit == (b = <<0>>) => PrintT("@C " \o ToJson([s |-> s, g |-> g]))
===========================================================================
