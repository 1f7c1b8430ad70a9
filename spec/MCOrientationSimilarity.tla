---------------------- MODULE MCOrientationSimilarity ----------------------
EXTENDS OrientationSimilarity, TLC, Json
Cross == <<<<0, 1, 0>>, <<1, 1, 1>>, <<0, 1, 0>>>>
Row   == <<<<1, 1, 1>>>>
Corner == <<<<1, 0>>, <<1, 1>>>>
FP == {Cross, Row, Corner}
Emit == (n = nb /\ p = 0 /\ osm = <<>>) =>
  PrintT("@C " \o ToJson([ny |-> ny, nx |-> nx, S |-> S, F |-> F, nb |-> nb, nf |-> nf]))
=============================================================================
