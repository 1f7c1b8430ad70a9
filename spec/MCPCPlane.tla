----------------------------- MODULE MCPCPlane -----------------------------
EXTENDS PCPlane, TLC, Json
Emit == (Len(meas) = MaxPoints /\ plane.b = 1 /\ plane.dr # plane.dc /\ Spans(Positions(meas))) =>
  PrintT("@C " \o ToJson([meas |-> [i \in DOMAIN meas |->
           <<meas[i].cell[1], meas[i].cell[2], IF meas[i].outlier THEN 1 ELSE 0>>]]))
=============================================================================
