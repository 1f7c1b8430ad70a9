--------------------------- MODULE DetectorPlots ---------------------------
(***************************************************************************)
(* What plots of a detector show, and where.                               *)
(*                                                                         *)
(* Lengths are in binned detector pixels, projection centers (Bruker) in   *)
(* tenths, and an angle is <<c, s, n>> with cosine c/n and sine s/n.  The  *)
(* views' coordinates come from the same frames as those of simulated      *)
(* patterns (module Simulation): with the sample untilted, its X, Y and Z  *)
(* are the microscope's Y, -X and Z.                                       *)
(***************************************************************************)
EXTENDS Num

S == INSTANCE Simulation WITH Shapes <- {}, nav <- <<1>>, each <- FALSE, chunk <- 1, todo <- {},
                              out <- << >>

Average(ps) == [k \in 1..3 |-> SumSeq([i \in DOMAIN ps |-> ps[i][k]]) \div Len(ps)]

------------------------------------------------------------------------------
(* The screen in pixels: first row on top.  A screen of one pixel is one wide *)
LastPixel(n) == IF n > 2 THEN n - 1 ELSE 1
\* <<left, right, top, bottom>>
PixelBorders(ny, nx) == <<0, LastPixel(nx), 0, LastPixel(ny)>>
\* In tenths
PixelPC(ny, nx, p) == <<p[1] * LastPixel(nx), p[2] * LastPixel(ny)>>
\* Gnomonic borders, times 10 p[3] ny: the projection center is the origin and y is up
GnomonicBorders(ny, nx, p) == <<-nx * p[1], nx * (10 - p[1]), ny * p[2], -ny * (10 - p[2])>>

------------------------------------------------------------------------------
(* The views *)
Zero == <<1, 0, 1>>
\* A screen point, u tenths from the left and v from the top, in the detector's frame (in tenths)
ScreenPoint(ny, nx, p, u, v) == <<nx * (u - p[1]), ny * (p[2] - v), ny * p[3]>>
Microscope(v) == <<-v[2], v[1], v[3]>>
InMicroscope(tilt, azimuthal, v) == Microscope(S!InSample(S!Frame(Zero, tilt, azimuthal, Zero), v))
Factor(tilt, azimuthal) == tilt[3] * azimuthal[3]

\* The top view's <<X, Y>> of the screen's corners, clockwise from the upper left
TopCorners(ny, nx, p, tilt, azimuthal) ==
  [k \in 1..4 |-> LET uv == << <<0, 0>>, <<10, 0>>, <<10, 10>>, <<0, 10>> >>[k]
                      m == InMicroscope(tilt, azimuthal, ScreenPoint(ny, nx, p, uv[1], uv[2]))
                  IN  <<m[1], m[2]>>]
TopPC(ny, nx, p, tilt, azimuthal) ==
  LET m == InMicroscope(tilt, azimuthal, ScreenPoint(ny, nx, p, p[1], p[2])) IN <<m[1], m[2]>>
\* The side view's <<Y, Z>>, in which the azimuthal angle is not seen
SideOf(ny, nx, p, tilt, v) ==
  LET m == InMicroscope(tilt, Zero, ScreenPoint(ny, nx, p, p[1], v)) IN <<m[2], m[3]>>
\* The direction of the sample's X in the microscope's <<Y, Z>>
SampleX(sample) ==
  LET f == S!Frame(sample, Zero, Zero, Zero)
      x == Microscope(S!InSample(S!Frame(Zero, Zero, Zero, Zero), <<f[1][1], f[2][1], f[3][1]>>))
  IN  <<x[2], x[3]>>

------------------------------------------------------------------------------
(* Positions in a map: <<row, column>> to <<x, y>>, within the region of    *)
(* interest unless the whole area is drawn                                  *)
Positions(rc, origin, area) ==
  [i \in DOMAIN rc |-> IF area THEN <<rc[i][2], rc[i][1]>>
                       ELSE <<rc[i][2] - origin[2], rc[i][1] - origin[1]>>]
\* A color stretched so that the image's lowest is black and highest is full
Colour(v, low, high, full) == ((v - low) * full) \div (high - low)
===========================================================================
