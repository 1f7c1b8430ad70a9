----------------------------- MODULE Simulation -----------------------------
(***************************************************************************)
(* Patterns simulated from a master pattern (get_patterns).                *)
(*                                                                         *)
(* The rotations' points are simulated in blocks of points, in any order.  *)
(* A point's pattern is that of its own rotation and projection center     *)
(* (the one of the detector, or its own).  The direction of a detector     *)
(* pixel is given here in exact integers: detector frame, tilts with       *)
(* rational sines and cosines, and a rotation from an integer quaternion.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Shapes
VARIABLES nav, each, chunk, todo, out
vars == <<nav, each, chunk, todo, out>>

SizeOf(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] * s[2]
NBlocks(n, c) == (n + c - 1) \div c
BlockPts(b, n, c) == {k \in 1..n : (k - 1) \div c = b - 1}
PcOf(i, e) == IF e THEN i ELSE 1

Init == /\ nav \in Shapes /\ each \in BOOLEAN
        /\ chunk \in 1..SizeOf(nav)
        /\ todo = 1..NBlocks(SizeOf(nav), chunk)
        /\ out = [i \in 1..SizeOf(nav) |-> <<>>]
Block == \E b \in todo :
           /\ todo' = todo \ {b}
           /\ out' = [i \in DOMAIN out |->
                        IF i \in BlockPts(b, SizeOf(nav), chunk)
                        THEN <<i, PcOf(i, each)>> ELSE out[i]]
           /\ UNCHANGED <<nav, each, chunk>>
Next == Block
Spec == Init /\ [][Next]_vars
TypeOK == todo \subseteq 1..NBlocks(SizeOf(nav), chunk)
OnlyDone == \A i \in DOMAIN out :
              (out[i] = <<>>) = (\E b \in todo : i \in BlockPts(b, SizeOf(nav), chunk))
OwnRotation == \A i \in DOMAIN out : out[i] # <<>> => out[i] = <<i, PcOf(i, each)>>
Ends == todo = {} => \A i \in DOMAIN out : out[i] # <<>>

------------------------------------------------------------------------------
(* Directions.  An angle is <<c, s, n>> with cosine c/n and sine s/n.       *)
Row(m, v, k) == m[k][1] * v[1] + m[k][2] * v[2] + m[k][3] * v[3]
MatVec(m, v) == <<Row(m, v, 1), Row(m, v, 2), Row(m, v, 3)>>
MatMul(a, b) ==
  [i \in 1..3 |-> [j \in 1..3 |-> a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j]]]
Neg(a) == <<a[1], -a[2], a[3]>>
\* Rows of a frame turned about its own axis k by angle a, n times as long
TurnX(a) == <<<<a[3], 0, 0>>, <<0, a[1], a[2]>>, <<0, -a[2], a[1]>>>>
TurnY(a) == <<<<a[1], 0, -a[2]>>, <<0, a[3], 0>>, <<a[2], 0, a[1]>>>>
TurnZ(a) == <<<<a[1], a[2], 0>>, <<-a[2], a[1], 0>>, <<0, 0, a[3]>>>>
\* Untilted, the detector's X, Y, Z are the sample's Y, Z, X
F0 == <<<<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>>>>
Frame(sample, tilt, azimuthal, twist) ==
  MatMul(TurnZ(Neg(twist)),
         MatMul(TurnY(Neg(azimuthal)), MatMul(TurnX(tilt), MatMul(TurnX(Neg(sample)), F0))))

\* Pixel (row, col) from 0 of an (ny, nx) detector seen from the source
\* point, with the projection center p in tenths (Bruker's convention)
PixelVec(row, col, ny, nx, p) ==
  <<10 * (2 * col + 1) - 2 * nx * p[1], 2 * ny * p[2] - 10 * (2 * row + 1), 2 * ny * p[3]>>

\* From the detector's to the sample's frame, v = sum of components times rows
InSample(f, v) ==
  [j \in 1..3 |-> v[1] * f[1][j] + v[2] * f[2][j] + v[3] * f[3][j]]

\* Rotation by the quaternion <<a, b, c, d>> (not of unit length)
QMat(h) ==
  LET a == h[1] b == h[2] c == h[3] d == h[4]
  IN  <<<<a*a + b*b - c*c - d*d, 2 * (b*c - a*d), 2 * (b*d + a*c)>>,
        <<2 * (b*c + a*d), a*a - b*b + c*c - d*d, 2 * (c*d - a*b)>>,
        <<2 * (b*d - a*c), 2 * (c*d + a*b), a*a - b*b - c*c + d*d>>>>

AbsV(x) == IF x < 0 THEN -x ELSE x
MaxAbs(v) == LET a == AbsV(v[1]) b == AbsV(v[2]) c == AbsV(v[3])
                 m == IF a > b THEN a ELSE b IN IF c > m THEN c ELSE m
\* Integer division towards zero, so that reversed directions stay reversed
Div(a, n) == IF a < 0 THEN -((-a) \div n) ELSE a \div n
Shrink(v) == LET m == MaxAbs(v) \div 2000 + 1
             IN  <<Div(v[1], m), Div(v[2], m), Div(v[3], m)>>
\* The crystal direction of a pixel
Direction(row, col, ny, nx, p, f, h) ==
  Shrink(MatVec(QMat(h), Shrink(InSample(f, PixelVec(row, col, ny, nx, p)))))
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3],
                 u[1] * v[2] - u[2] * v[1]>>
\* Where in the master pattern an intensity comes from: the direction itself,
\* or the opposite one if only the other hemisphere of a crystal with
\* inversion symmetry is given.  Either one on the equator.
MinusV(d) == <<-d[1], -d[2], -d[3]>>
Seen(d, hemisphere) ==
  LET edge == AbsV(d[3]) <= MaxAbs(d) \div 100
      keep == hemisphere = "both" \/ (hemisphere = "upper" /\ d[3] >= 0)
                                \/ (hemisphere = "lower" /\ d[3] <= 0)
  IN  (IF keep \/ edge THEN {d} ELSE {}) \cup (IF ~keep \/ edge THEN {MinusV(d)} ELSE {})
\* u, v are the same direction to within about t in 1000
Parallel(u, v, t) == /\ Dot(u, v) > 0
                     /\ MaxAbs(Cross(u, v)) <= ((MaxAbs(u) * MaxAbs(v)) \div 1000) * t
=============================================================================
