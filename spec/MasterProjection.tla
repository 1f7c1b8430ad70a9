-------------------------- MODULE MasterProjection --------------------------
(***************************************************************************)
(* Master patterns in the stereographic and the square Lambert projection. *)
(*                                                                         *)
(* A master pattern signal holds one image per hemisphere and energy (or   *)
(* per what of these it has); each image is converted on its own.  The     *)
(* direction of a point of the Lambert square is given in integers scaled  *)
(* by 10^4.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Sizes, MaxE
VARIABLES sides, ne, n, todo, done
vars == <<sides, ne, n, todo, done>>

\* Images as <<hemisphere, energy>>, hemisphere 0 is the upper one
Images(s, e) == s \X (1..e)
Init == /\ sides \in {{0}, {1}, {0, 1}} /\ ne \in 1..MaxE /\ n \in Sizes
        /\ todo = Images(sides, ne) /\ done = {}
Convert == \E im \in todo : /\ todo' = todo \ {im}
                            /\ done' = done \cup {[from |-> im, to |-> im]}
                            /\ UNCHANGED <<sides, ne, n>>
Next == Convert
Spec == Init /\ [][Next]_vars
Once == \A d \in done : d.from = d.to /\ d.from \notin todo
All == todo \cup {d.from : d \in done} = Images(sides, ne)

------------------------------------------------------------------------------
(* Sines and cosines of 0, 1, ..., 46 degrees, scaled by 10^4 *)
SinT ==
  <<0, 175, 349, 523, 698, 872, 1045, 1219, 1392, 1564, 1736, 1908, 2079,
    2250, 2419, 2588, 2756, 2924, 3090, 3256, 3420, 3584, 3746, 3907,
    4067, 4226, 4384, 4540, 4695, 4848, 5000, 5150, 5299, 5446, 5592,
    5736, 5878, 6018, 6157, 6293, 6428, 6561, 6691, 6820, 6947, 7071,
    7193>>
CosT ==
  <<10000, 9998, 9994, 9986, 9976, 9962, 9945, 9925, 9903, 9877, 9848,
    9816, 9781, 9744, 9703, 9659, 9613, 9563, 9511, 9455, 9397, 9336,
    9272, 9205, 9135, 9063, 8988, 8910, 8829, 8746, 8660, 8572, 8480,
    8387, 8290, 8192, 8090, 7986, 7880, 7771, 7660, 7547, 7431, 7314,
    7193, 7071, 6947>>
\* Linear between whole degrees, of 45 * num / den degrees with 0 <= num <= den
Between(t, num, den) ==
  LET k == (45 * num) \div den
      rem == (45 * num) % den
  IN  t[k + 1] + ((t[k + 2] - t[k + 1]) * rem) \div den
RECURSIVE Bisect(_, _, _)
Bisect(x, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN  IF m * m <= x THEN Bisect(x, m, hi) ELSE Bisect(x, lo, m - 1)
ISqrt(x) == Bisect(x, 0, 10001)

AbsI(x) == IF x < 0 THEN -x ELSE x
SignI(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* Direction in the hemisphere (0: upper) of the point (X/m, Y/m) of the
\* square [-1, 1]^2.  The square is area preserving: circles about the pole
\* are squares, 1 - |z| is the square of the larger coordinate, and the other
\* coordinate is proportional to the azimuth from the nearest axis.
LambertVector(X, Y, m, side) ==
  LET a == AbsI(X) b == AbsI(Y)
      w == IF a >= b THEN a ELSE b
      o == IF a >= b THEN b ELSE a
      z == 10000 - (10000 * w * w) \div (m * m)
      r == ISqrt(100000000 - z * z)
      along  == IF w = 0 THEN 0 ELSE (r * Between(CosT, o, w)) \div 10000
      across == IF w = 0 THEN 0 ELSE (r * Between(SinT, o, w)) \div 10000
  IN  <<SignI(X) * (IF a >= b THEN along ELSE across),
        SignI(Y) * (IF a >= b THEN across ELSE along),
        IF side = 0 THEN z ELSE -z>>

\* Intensity f = <<f0, f1, f2, f3>> of direction v, f0 + (f1, f2, f3) . v,
\* v scaled by 10^4, intensity by 10
Intensity(f, v) == 10 * f[1] + (f[2] * v[1] + f[3] * v[2] + f[4] * v[3]) \div 1000
=============================================================================
