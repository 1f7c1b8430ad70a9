------------------------- MODULE MCMasterProjection -------------------------
EXTENDS MasterProjection, TLC, Json
SeqOf(S) == IF S = {0} THEN <<0>> ELSE IF S = {1} THEN <<1>> ELSE <<0, 1>>
Emit == done = {} => PrintT("@C " \o ToJson([sides |-> SeqOf(sides), ne |-> ne, n |-> n]))
\* The projection is one to one and of unit length: every point of the square
Grid == {<<X, Y>> \in (-8..8) \X (-8..8) : TRUE}
UnitLength == \A g \in Grid :
  LET v == LambertVector(g[1], g[2], 8, 0)
      d == v[1] * v[1] + v[2] * v[2] + v[3] * v[3] - 100000000
  IN  d <= 100000 /\ d >= -100000
Distinct == \A g, h \in Grid :
  LET u == LambertVector(g[1], g[2], 8, 0)
      v == LambertVector(h[1], h[2], 8, 0)
  IN  g # h => (AbsI(u[1] - v[1]) > 50 \/ AbsI(u[2] - v[2]) > 50 \/ AbsI(u[3] - v[3]) > 50)
ASSUME UnitLength /\ Distinct
=============================================================================
