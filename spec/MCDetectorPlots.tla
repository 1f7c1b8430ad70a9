------------------------- MODULE MCDetectorPlots -------------------------
EXTENDS DetectorPlots, TLC, Json
CONSTANTS Angles, PCs, Sizes
A == { <<1, 0, 1>>, <<0, 1, 1>>, <<0, -1, 1>>, <<4, 3, 5>>, <<3, 4, 5>>, <<4, -3, 5>>, <<3, -4, 5>> }
Z == { <<6, 9>>, <<5, 5>>, <<4, 1>> }
P == { <<x, y, z>> : x \in {-2, 0, 5, 12}, y \in {-3, 4, 10}, z \in {1, 7} }
VARIABLES c
Init == c \in [sig : Sizes, pc : PCs, tilt : Angles, azimuthal : Angles]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Sq(x) == x * x
\* The screen keeps its size, and its distance, whatever the angles
D3(a, b) == Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + Sq(a[3] - b[3])
At(u, v) == InMicroscope(c.tilt, c.azimuthal, ScreenPoint(c.sig[1], c.sig[2], c.pc, u, v))
N == Factor(c.tilt, c.azimuthal)
Rigid == /\ D3(At(0, 0), At(10, 0)) = Sq(10 * c.sig[2] * N)
         /\ D3(At(0, 0), At(0, 10)) = Sq(10 * c.sig[1] * N)
         /\ D3(At(c.pc[1], c.pc[2]), <<0, 0, 0>>) = Sq(c.sig[1] * c.pc[3] * N)
\* Seen from the sample the first column is on the right: the X axis points west
Corners == LET t == TopCorners(c.sig[1], c.sig[2], c.pc, Zero, Zero)
           IN  t[1][1] > t[2][1] /\ t[1][2] = t[2][2]
\* Untilted, the screen is on the sample's lower side
Facing == LET x == SampleX(<<3, 4, 5>>) IN x[1] > 0 /\ x[2] < 0
Emit == PrintT("@C " \o ToJson(c))
==========================================================================
