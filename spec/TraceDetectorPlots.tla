------------------------ MODULE TraceDetectorPlots ------------------------
EXTENDS TraceBase, DetectorPlots

TInit == <<>>
TStep(s, r) == s
Scaled(b, k) == [i \in DOMAIN b |-> k * b[i]]
Near(a, b, tol) == SeqClose(a, b, tol)
\* a / 10000 is b / d
Ratio(a, b, d) == \A i \in DOMAIN b : Close(a[i] * d, b[i] * 10000, d)

Screen(r) ==
  LET p == Average(r.pcs)
      z == r.zoom
  IN IF r.coordinates = "pixel"
     THEN LET b == PixelBorders(r.sig[1], r.sig[2])
          IN [Limits |-> Near(r.limits, Scaled(b, 10000 * z), 2),
              Screen |-> Near(r.border, Scaled(b, 10000), 2),
              ProjectionCenter |-> IF r.show THEN \A i \in DOMAIN r.marks :
                                       Near(r.marks[i], Scaled(PixelPC(r.sig[1], r.sig[2], p), 1000), 2)
                                   ELSE r.marks = <<>>,
              Marked |-> r.show => Len(r.marks) > 0,
              Pattern |-> r.same,
              Circles |-> r.circles = <<>> \/ r.angles # <<>>]
     ELSE LET b == GnomonicBorders(r.sig[1], r.sig[2], p)
              d == r.sig[1] * p[3]
          IN [Limits |-> Ratio(r.limits, Scaled(b, z), d),
              Screen |-> Ratio(r.border, b, d),
              ProjectionCenter |-> IF r.show THEN \A i \in DOMAIN r.marks : Near(r.marks[i], <<0, 0>>, 1)
                                   ELSE r.marks = <<>>,
              Marked |-> r.show => Len(r.marks) > 0,
              Pattern |-> r.same,
              \* Radii are tangents, <<numerator, denominator>>
              Circles |-> /\ Len(r.circles) = Len(r.angles)
                          /\ \A i \in DOMAIN r.angles :
                               LET t == r.angles[i] k == r.circles[i]
                               IN Close(k[3] * t[2], t[1] * 10000, t[2]) /\ Near(<<k[1], k[2]>>, <<0, 0>>, 1)]

\* In any order
SameCorners(a, b) == /\ \A i \in DOMAIN a : \E j \in DOMAIN b : Near(a[i], b[j], 1)
                     /\ \A j \in DOMAIN b : \E i \in DOMAIN a : Near(a[i], b[j], 1)

\* Coordinates are in units of a tenth pixel over r.n
View(r) ==
  LET p == Average(r.pcs)
      ny == r.sig[1] nx == r.sig[2]
      f == Factor(r.tilt, r.azimuthal)
      x == SampleX(r.sample)
  IN [Axes |-> r.xleft /\ r.yup = (r.view = "side"),
      Source |-> Near(r.source, <<0, 0>>, 0),
      ProjectionCenter |->
         \A i \in DOMAIN r.marks :
            Near(r.marks[i], IF r.view = "top" THEN Scaled(TopPC(ny, nx, p, r.tilt, r.azimuthal), r.n \div f)
                             ELSE Scaled(SideOf(ny, nx, p, r.tilt, p[2]), r.n \div r.tilt[3]), 1),
      Marked |-> Len(r.marks) > 0,
      Screen |->
         SameCorners(r.screen,
           IF r.view = "top"
           THEN LET t == TopCorners(ny, nx, p, r.tilt, r.azimuthal)
                IN  [i \in 1..4 |-> Scaled(t[i], r.n \div f)]
           ELSE [i \in 1..2 |-> Scaled(SideOf(ny, nx, p, r.tilt, 10 * (i - 1)), r.n \div r.tilt[3])]),
      \* The sample's extent in <<Y, Z>> (side) or <<X, Y>> (top)
      Sample |->
         IF r.view = "side"
         THEN Close(r.extent[1] * x[2], r.extent[2] * x[1], 2 * r.sample[3])
         ELSE Close(r.extent[2] * r.sample[3], r.extent[1] * Abs(x[1]), 2 * r.sample[3])]

Centers(r) ==
  LET ps == r.pcs
      Pick(a, b) == [i \in DOMAIN ps |-> <<ps[i][a], ps[i][b]>>]
  IN CASE r.mode = "map" ->
            [Values |-> \A k \in 1..3 : \A i \in DOMAIN ps : r.images[k][i] = ps[i][k],
             Shapes |-> \A k \in 1..3 : r.shapes[k] = r.nav,
             Labels |-> r.labels = <<"PCx", "PCy", "PCz">>]
       [] r.mode = "scatter" ->
            [Values |-> /\ r.points[1] = Pick(1, 2) /\ r.points[2] = Pick(1, 3) /\ r.points[3] = Pick(3, 2),
             Labels |-> r.labels = << <<"PCx", "PCy">>, <<"PCx", "PCz">>, <<"PCz", "PCy">> >>,
             Colours |-> \A k \in 1..3 : r.colours[k] = [i \in DOMAIN ps |-> i - 1],
             Numbers |-> IF r.annotate
                         THEN /\ \A k \in 1..3 : r.numbers[k] = [i \in DOMAIN ps |-> i - 1]
                              /\ r.at[1] = Pick(1, 2) /\ r.at[2] = Pick(1, 3) /\ r.at[3] = Pick(3, 2)
                         ELSE \A k \in 1..3 : r.numbers[k] = <<>>]
       [] OTHER ->
            [Values |-> r.points = [i \in DOMAIN ps |-> <<ps[i][1], ps[i][3], ps[i][2]>>],
             Labels |-> r.labels = <<"PCx", "PCz", "PCy">>,
             Numbers |-> IF r.annotate THEN /\ r.numbers = [i \in DOMAIN ps |-> i - 1]
                                            /\ r.at = r.points
                         ELSE r.numbers = <<>>]

Map(r) ==
  [Positions |-> r.points = Positions(r.rc, r.origin, r.area # <<>> /\ ~r.axis),
   Numbers |-> r.numbers = [i \in DOMAIN r.rc |-> i - 1],
   NumbersAt |-> r.at = r.points,
   Limits |-> r.axis \/ r.limits = LET n == IF r.area # <<>> THEN r.area ELSE r.roi
                                   IN <<0, n[2], n[1], 0>>,
   \* Images: <<left, right, top, bottom>> and that they are the ones given
   Images |-> IF r.axis THEN r.images = <<>>
              ELSE r.images = (IF r.area # <<>> /\ r.areaimage THEN << <<0, r.area[2], 0, r.area[1]>> >> ELSE <<>>)
                     \o (IF ~r.roiimage THEN <<>>
                         ELSE IF r.area # <<>>
                         THEN << <<r.origin[2], r.origin[2] + r.roi[2], r.origin[1], r.origin[1] + r.roi[1]>> >>
                         ELSE << <<0, r.roi[2], 0, r.roi[1]>> >>),
   ImageRows |-> r.same,
   Region |-> (r.area # <<>> /\ ~r.axis) => r.rects = << <<r.origin[2], r.origin[1], r.roi[2], r.roi[1]>> >>,
   ArgumentKept |-> r.kept]

Rgb(r) ==
  LET flat == r.image
      low == MinSeq(flat) high == MaxSeq(flat)
  IN [Colours |-> r.out = [i \in DOMAIN flat |-> Colour(flat[i], low, high, r.full)],
      Type |-> r.type = (IF r.full = 255 THEN "rgb8" ELSE "rgb16"),
      Shape |-> r.shape = r.given]

TClauses(s, r) ==
  CASE r.op = "screen" -> Screen(r)
    [] r.op = "view" -> View(r)
    [] r.op = "centers" -> Centers(r)
    [] r.op = "map" -> Map(r)
    [] OTHER -> Rgb(r)
===========================================================================
