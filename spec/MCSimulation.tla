--------------------------- MODULE MCSimulation ---------------------------
EXTENDS Simulation, TLC, Json
Few == {<<1>>, <<2>>, <<3>>, <<5>>, <<1, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<2, 3>>}
Many == Few \cup {<<7>>, <<3, 3>>, <<2, 4>>}
Emit == (todo = 1..NBlocks(SizeOf(nav), chunk)) =>
          PrintT("@C " \o ToJson([nav |-> nav, each |-> each, chunk |-> chunk]))
===========================================================================
