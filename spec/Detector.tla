------------------------------ MODULE Detector ------------------------------
(***************************************************************************)
(* The detector as a plane of ny x nx pixels seen from the sample.  The    *)
(* projection center (PC) is one physical point: X pixels to the right of  *)
(* the left edge, Y pixels below the upper edge and Z pixel heights away.  *)
(* Each convention is a measure of that point; the gnomonic coordinates of *)
(* a detector point are its offset from the PC divided by Z.               *)
(*                                                                         *)
(* Trace clauses use fractions in units of 1/100 (x, y, z), binning b and  *)
(* pixel size d in units of 1/10, and observations o scaled as stated.     *)
(***************************************************************************)
EXTENDS Num

\* |o - num / den| <= 1 unit of o, for den > 0
Is(o, num, den) == Abs(o * den - num) <= den

\* Observations scaled by 10^5 of a Bruker PC (x, y, z) in other conventions
InTsl(o, p, ny, nx) ==
  /\ Is(o[1], 1000 * p[1], 1)
  /\ Is(o[2], 1000 * (100 - p[2]), 1)
  /\ Is(o[3], 1000 * p[3] * ny, MinOf(ny, nx))
InOxford(o, p, ny, nx) ==
  /\ Is(o[1], 1000 * p[1], 1)
  /\ Is(o[2], 1000 * (100 - p[2]) * ny, nx)
  /\ Is(o[3], 1000 * p[3] * ny, nx)
\* Observations scaled by 10^3 (unbinned pixels) and 10^2 (microns)
InEmsoft(o, p, ny, nx, b, d, v) ==
  /\ Is(o[1], (IF v < 5 THEN -1 ELSE 1) * (50 - p[1]) * nx * b, 1)
  /\ Is(o[2], (50 - p[2]) * ny * b, 1)
  /\ Is(o[3], p[3] * ny * b * d, 100)

\* The other way: o is the Bruker PC scaled by 10^5, p given in the convention
FromTsl(o, p, ny, nx) ==
  /\ Is(o[1], 1000 * p[1], 1)
  /\ Is(o[2], 1000 * (100 - p[2]), 1)
  /\ Is(o[3], 1000 * p[3] * MinOf(ny, nx), ny)
FromOxford(o, p, ny, nx) ==
  /\ Is(o[1], 1000 * p[1], 1)
  /\ Is(o[2], 1000 * (100 * ny - p[2] * nx), ny)
  /\ Is(o[3], 1000 * p[3] * nx, ny)
\* p[1], p[2] in 1/100 unbinned pixels, p[3] in whole microns
FromEmsoft(o, p, ny, nx, b, d, v) ==
  /\ Is(50000 - o[1], (IF v < 5 THEN -1 ELSE 1) * 10000 * p[1], nx * b)
  /\ Is(50000 - o[2], 10000 * p[2], ny * b)
  /\ Abs((o[3] \div 100) * ny * b * d - 100000 * p[3]) <= 2 * ny * b * d

\* Gnomonic bounds, scaled by 10^4
XMin(o, p, ny, nx) == Is(o, -10000 * nx * p[1], p[3] * ny)
XMax(o, p, ny, nx) == Is(o, 10000 * nx * (100 - p[1]), p[3] * ny)
YMin(o, p) == Is(o, -10000 * (100 - p[2]), p[3])
YMax(o, p) == Is(o, 10000 * p[2], p[3])

\* Gnomonic coordinates (scaled by 10^4) of the pixel coordinate t / 10
GnX(o, t, p, ny, nx) == Is(o, 10000 * (10 * t - nx * p[1]), ny * p[3])
GnY(o, t, p, ny, nx) == Is(o, 10000 * (ny * p[2] - 10 * t), ny * p[3])
\* Pixel coordinates (scaled by 10^3) of the gnomonic coordinate g / 100
PxX(o, g, p, ny, nx) == Is(o, g * ny * p[3] + 100 * nx * p[1], 10)
PxY(o, g, p, ny, nx) == Is(o, 100 * ny * p[2] - g * ny * p[3], 10)

\* Largest distance to a corner; all scaled by 10^3
RMax(o, xs, ys) ==
  LET c == {x * x + y * y : x \in {xs[1], xs[2]}, y \in {ys[1], ys[2]}}
  IN  Abs(o * o - Max(c)) <= 4 * Abs(o) + 10

------------------------------------------------------------------------------
(* Orientation of the detector for angles that are multiples of 90 degrees. *)
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3],
                 u[1] * v[2] - u[2] * v[1]>>
Cos4(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sin4(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
Rot4(u, v, k) ==
  LET x == Cross(u, v)
  IN  [i \in 1..3 |-> v[i] * Cos4(k) + x[i] * Sin4(k) + u[i] * Dot(u, v) * (1 - Cos4(k))]
\* Turn the frame (rows: X, Y and Z of the detector) about its own axis a
Turn(f, a, k) == [i \in 1..3 |-> Rot4(f[a], f[i], k)]
\* Untilted, the detector's X, Y, Z are the sample's Y, Z, X
Frame(sample, tilt, azimuthal, twist) ==
  LET f0 == <<<<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>>>>
  IN  Turn(Turn(Turn(f0, 1, tilt - sample), 2, -azimuthal), 3, -twist)

------------------------------------------------------------------------------
(* Histories of one detector.  X, Y, Z as above in pixels of the original;  *)
(* (top, left) is the offset of the present detector in the original.       *)
CONSTANTS MaxN, MaxH, Convs
VARIABLES ny, nx, top, left, pt, hist
vars == <<ny, nx, top, left, pt, hist>>
\* pt is the physical point relative to the present upper left corner
Init ==
  /\ ny \in 1..MaxN /\ nx \in 1..MaxN
  /\ top = 0 /\ left = 0
  /\ pt = [x |-> 2, y |-> 1, z |-> 3]
  /\ hist = <<[op |-> "new", ny |-> ny, nx |-> nx]>>
Do(h) == hist' = Append(hist, h)
Crop ==
  \E t \in 0..(ny - 1) : \E b \in (t + 1)..ny :
    \E l \in 0..(nx - 1) : \E r \in (l + 1)..nx :
      /\ <<t, b, l, r>> # <<0, ny, 0, nx>>
      /\ ny' = b - t /\ nx' = r - l
      /\ top' = top + t /\ left' = left + l
      /\ pt' = [pt EXCEPT !.x = @ - l, !.y = @ - t]
      /\ Do([op |-> "crop", extent |-> <<t, b, l, r>>])
\* Written in a convention and read again
Via == \E c \in Convs : \E o \in {"conv", "save"} :
  /\ Do([op |-> o, conv |-> c])
  /\ UNCHANGED <<ny, nx, top, left, pt>>
Copy == Do([op |-> "copy"]) /\ UNCHANGED <<ny, nx, top, left, pt>>
Nav == Do([op |-> "nav"]) /\ UNCHANGED <<ny, nx, top, left, pt>>
Next == Len(hist) < MaxH /\ (Crop \/ Via \/ Copy \/ Nav)
Spec == Init /\ [][Next]_vars
TypeOK == ny \in 1..MaxN /\ nx \in 1..MaxN
SamePoint == pt = [x |-> 2 - left, y |-> 1 - top, z |-> 3]
Inside == top + ny <= MaxN /\ left + nx <= MaxN
=============================================================================
