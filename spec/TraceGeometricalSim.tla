------------------------ MODULE TraceGeometricalSim ------------------------
EXTENDS TraceBase, Num, BigNat
G == INSTANCE GeometricalSim WITH Indices <- {}, MaxBands <- 0, Turns <- {}, list <- {},
                                  pats <- <<>>, at <- 1, seen <- {}
F == INSTANCE Simulation WITH Shapes <- {}, nav <- <<>>, each <- FALSE, chunk <- 1, todo <- {},
                              out <- <<>>
D == INSTANCE DetectorPlots
TInit == <<>>
TStep(s, r) == s

\* Projection centers in tenths.  Squared gnomonic radius of the farthest
\* corner, times (nrows pz)^2
Far(a) == MaxOf(a * a, (10 - a) * (10 - a))
Corner2(pc, ny, nx) == nx * nx * Far(pc[1]) + ny * ny * Far(pc[2])
\* of all patterns, as a fraction over 10^4 (pz rational): the largest in 1 / 10000
RMax2(pcs, ny, nx) ==
  LET one(p) == (10000 * Corner2(p, ny, nx)) \div (ny * ny * p[3] * p[3])
  IN  MaxSeq([i \in DOMAIN pcs |-> one(pcs[i])])
Pc(r, i) == IF Len(r.pcs) = 1 THEN r.pcs[1] ELSE r.pcs[i]

\* Is x^2 + y^2 times RMax2 / 10^4 larger than z^2 ?  "edge" if nearly equal
Within(d, rmax2, ratio) ==
  \* d = <<x, y, z>>; band: z^2 < r2 (x^2 + y^2);  axis: x^2 + y^2 < r2 z^2
  LET Sq(x) == BMul(BNat(Abs(x)), BNat(Abs(x)))
      xy == BAdd(Sq(d[1]), Sq(d[2]))
      z == Sq(d[3])
      a == IF ratio = "band" THEN z ELSE xy
      b == IF ratio = "band" THEN xy ELSE z
      A == BMul(a, BNat(10000))
  IN  IF BLessEq(BMul(b, BNat(rmax2 + 1 + rmax2 \div 500)), A) THEN "out"
      ELSE IF BLessEq(A, BMul(b, BNat(rmax2 - rmax2 \div 500))) THEN "in" ELSE "edge"

Frame(r) == F!Frame(r.angles[1], r.angles[2], r.angles[3], r.angles[4])
Band(r, k, i) == G!Reduce(G!OnDetector(G!Reduce(G!Normal(r.hkl[k], r.base)), Frame(r), r.turns[i]))
AxisD(r, u, i) == G!Reduce(G!OnDetector(G!Axis(u, r.base), Frame(r), r.turns[i]))

\* Reflectors on the detector's side in some pattern
Visible(r) == {k \in DOMAIN r.hkl : \E i \in DOMAIN r.turns : Band(r, k, i)[3] >= 0}
VisibleSeq(r) == SelectSeq([k \in DOMAIN r.hkl |-> k], LAMBDA k : k \in Visible(r))

\* Lines of pattern i in the order of reflectors: [h: there, g: gnomonic end
\* points x 1000, p: pixel coordinates x 1000]
LineState(r, k, i, rmax2) ==
  LET d == Band(r, k, i)
  IN  IF d[3] < 0 THEN "out" ELSE Within(d, rmax2, "band")
OnTrace(d, x, y) == Abs(d[1] * x + d[2] * y + 1000 * d[3]) <= 3 * (Abs(d[1]) + Abs(d[2]))
OnCircle(x, y, rmax2) == Close((x * x + y * y) \div 100, rmax2, 4 + rmax2 \div 100)
\* Gnomonic x 1000 to pixels x 1000, projection center in tenths
PixelX(x, p, ny, nx) == ((x * p[3] * ny) \div (10 * nx) + 100 * p[1]) * (nx - 1)
PixelY(y, p, ny, nx) == ((-y * p[3]) \div 10 + 100 * p[2]) * (ny - 1)
PixelOk(g, p, pc, ny, nx) == /\ Close(p[1], PixelX(g[1], pc, ny, nx), 3 * nx + Abs(p[1]) \div 500)
                             /\ Close(p[2], PixelY(g[2], pc, ny, nx), 3 * ny + Abs(p[2]) \div 500)

LineClauses(r) ==
  LET vis == VisibleSeq(r)
      rmax2 == RMax2(r.pcs, r.sig[1], r.sig[2])
  IN [
   Reflectors |-> r.reflectors = [j \in DOMAIN vis |-> r.hkl[vis[j]]],
   OneEach |-> Len(r.lines) = Len(r.turns) /\ \A i \in DOMAIN r.lines : Len(r.lines[i]) = Len(vis),
   Bands |-> \A i \in DOMAIN r.lines : \A j \in DOMAIN vis :
     LET s == LineState(r, vis[j], i, rmax2)
     IN  /\ s = "in" => r.lines[i][j].there
         /\ s = "out" => ~r.lines[i][j].there,
   Traces |-> \A i \in DOMAIN r.lines : \A j \in DOMAIN vis :
     LET x == r.lines[i][j] d == Band(r, vis[j], i) IN
     x.there => /\ OnTrace(d, x.g[1], x.g[2]) /\ OnTrace(d, x.g[3], x.g[4])
                /\ OnCircle(x.g[1], x.g[2], rmax2) /\ OnCircle(x.g[3], x.g[4], rmax2)
                \* The ends are apart, unless the band only touches the circle
                /\ \/ MaxOf(Abs(x.g[1] - x.g[3]), Abs(x.g[2] - x.g[4])) > 3
                   \/ LineState(r, vis[j], i, rmax2) = "edge",
   Pixels |-> \A i \in DOMAIN r.lines : \A j \in DOMAIN vis :
     LET x == r.lines[i][j] pc == Pc(r, i) IN
     x.there => /\ PixelOk(<<x.g[1], x.g[2]>>, <<x.p[1], x.p[2]>>, pc, r.sig[1], r.sig[2])
                /\ PixelOk(<<x.g[3], x.g[4]>>, <<x.p[3], x.p[4]>>, pc, r.sig[1], r.sig[2]),
   Shape |-> r.shape = r.nav,
   Markers |-> r.markers,
   First |-> r.default
  ]

\* Zone axes of a pattern: the ones of the visible reflectors in front of the
\* detector, on it or one pixel beside it
ZoneClauses(r) ==
  LET vis == {r.hkl[k] : k \in Visible(r)}
      axes == G!ZoneAxes(vis)
      rmax2 == RMax2(r.pcs, r.sig[1], r.sig[2])
      ny == r.sig[1]
      nx == r.sig[2]
      Tol == 4 * MaxOf(nx, ny)
      Px(d, i) == <<PixelX((1000 * d[1]) \div d[3], Pc(r, i), ny, nx),
                    PixelY((1000 * d[2]) \div d[3], Pc(r, i), ny, nx)>>
      Inside(p) == MinOf(MinOf(p[1] + 1000, 1000 * nx - p[1]),
                         MinOf(p[2] + 1000, 1000 * ny - p[2]))
      \* Pixel coordinates only where they are needed and do not overflow
      Near(d) == d[3] > 0 /\ Abs(d[1]) <= 40 * d[3] /\ Abs(d[2]) <= 40 * d[3]
      There(u, i) == LET d == AxisD(r, u, i)
                     IN  Near(d) /\ Inside(Px(d, i)) > Tol /\ Within(d, rmax2, "axis") = "in"
      Maybe(u, i) == LET d == AxisD(r, u, i) IN Near(d) /\ Inside(Px(d, i)) > -Tol
      At(p, u, i) == LET t == Px(AxisD(r, u, i), i)
                     IN  Close(p[1], t[1], Tol) /\ Close(p[2], t[2], Tol)
  IN [
   AllThere |-> \A i \in DOMAIN r.axes : \A u \in axes : There(u, i) =>
     Cardinality({j \in DOMAIN r.axes[i] : r.axes[i][j].uvw = u /\ At(r.axes[i][j].p, u, i)}) = 1,
   OnlyThere |-> \A i \in DOMAIN r.axes : \A j \in DOMAIN r.axes[i] :
     LET x == r.axes[i][j] IN x.uvw \in axes /\ Maybe(x.uvw, i) /\ At(x.p, x.uvw, i),
   Gnomonic |-> \A i \in DOMAIN r.gnomonic : \A u \in axes : There(u, i) =>
     \E j \in DOMAIN r.gnomonic[i] :
       LET d == AxisD(r, u, i)
       IN  /\ Close(r.gnomonic[i][j][1], (1000 * d[1]) \div d[3], 3)
           /\ Close(r.gnomonic[i][j][2], (1000 * d[2]) \div d[3], 3),
   Markers |-> r.markers
  ]

\* A pixel of the kinematical master pattern: in half size h, row and column
\* from the center, s 10000 times the sine of a band's Bragg angle
Sphere(row, col, h, side) ==
  <<2 * col * h, 2 * row * h,
    IF side = "upper" THEN h * h - col * col - row * row ELSE row * row + col * col - h * h>>
InBand(v, n, s) ==
  LET d == F!Dot(v, n)
      a == BMul(BMul(BNat(Abs(d)), BNat(Abs(d))), BNat(100000000))
      len == BMul(BNat(F!Dot(v, v)), BNat(F!Dot(n, n)))
      B(k) == BMul(BMul(BNat(k), BNat(k)), len)
  IN  IF d = 0 THEN "half" ELSE IF d < 0 THEN "out"
      ELSE IF BLessEq(a, B(s - 3)) THEN "in"
      ELSE IF BLessEq(B(s + 3), a) THEN "out" ELSE "edge"
MasterClauses(r) ==
  LET n == 2 * r.half + 1
      S(v, state, what) == SumSeq([k \in DOMAIN r.hkl |->
        LET b == InBand(v, r.hkl[k], r.sines[k])
        IN  IF b = "half" THEN r.weight[k]
            ELSE IF b = "in" \/ (b = "edge" /\ what = "most") THEN 2 * r.weight[k] ELSE 0])
  IN [
   Shape |-> r.shape = (IF r.side = "both" THEN <<2, n, n>> ELSE <<n, n>>),
   Pixels |-> \A m \in DOMAIN r.sides : \A row \in 1..n : \A col \in 1..n :
     LET v == Sphere(row - 1 - r.half, col - 1 - r.half, r.half, r.sides[m])
         x == r.got[m][row][col]
     IN  S(v, 0, "least") - 2 * Len(r.hkl) <= x /\ x <= S(v, 0, "most") + 2 * Len(r.hkl),
   Signal |-> r.meta = r.meta0
  ]
\* Circles drawn on the sphere: of normals n (integers), points on the unit
\* sphere in 1/1000, and sines of Bragg angles and weights in 1/1000
CirclePoint(p, n, s) ==
  LET d == F!Dot(p, n)
      err == 2 * (Abs(n[1]) + Abs(n[2]) + Abs(n[3]))
      target == s * s * F!Dot(n, n)
      low == MaxOf(Abs(d) - err, 0)
  IN  /\ low * low <= target /\ target <= (Abs(d) + err) * (Abs(d) + err)
CircleClauses(r) ==
  LET Sine(k) == IF r.mode = "lines" THEN 0 ELSE r.sines[k]
      Signs == IF r.mode = "lines" THEN {0} ELSE {-1, 1}
      Of(x, k, sgn) ==
        /\ Close(x.w, r.weight[k], 1)
        /\ \A i \in DOMAIN x.pts :
             /\ CirclePoint(x.pts[i], r.normals[k], Sine(k))
             /\ sgn # 0 => sgn * F!Dot(x.pts[i], r.normals[k]) > 0
      \* orix draws circles of vectors in the hemisphere
      Up(side, k) == IF side = "upper" THEN r.normals[k][3] ELSE -r.normals[k][3]
      Shown(side, k) == side = "all" \/ Up(side, k) > 0
      May(side, k) == side = "all" \/ Up(side, k) >= 0
      Sides == IF r.how # "stereographic" THEN {"all"}
               ELSE IF r.side = "both" THEN {"upper", "lower"} ELSE {r.side}
      \* The far circle reaches the hemisphere
      Reaches(side, k, sgn) ==
        \/ side = "all" \/ sgn # -1
        \/ LET n == r.normals[k] IN 1000000 * (n[1] * n[1] + n[2] * n[2])
                                    > (Sine(k) + 5) * (Sine(k) + 5) * F!Dot(n, n)
  IN [
   OnlyBands |-> \A j \in DOMAIN r.drawn : LET x == r.drawn[j] IN
     /\ x.side \in Sides
     /\ \E k \in DOMAIN r.normals : \E sgn \in Signs : May(x.side, k) /\ Of(x, k, sgn),
   AllBands |-> \A side \in Sides : \A k \in DOMAIN r.normals : Shown(side, k) =>
     \A sgn \in Signs : Reaches(side, k, sgn) =>
       \E j \in DOMAIN r.drawn : LET x == r.drawn[j] IN
         /\ x.side = side /\ Of(x, k, sgn)
         /\ x.n >= (IF side = "all" THEN 100 ELSE IF r.mode = "lines" THEN 40 ELSE 1),
   Number |-> \A side \in Sides :
     LET many == Cardinality({j \in DOMAIN r.drawn : r.drawn[j].side = side})
     IN  /\ many <= Cardinality(Signs) * Cardinality({k \in DOMAIN r.normals : May(side, k)})
         /\ many >= Cardinality({<<k, sgn>> \in (DOMAIN r.normals) \X Signs :
                                   Shown(side, k) /\ Reaches(side, k, sgn)}),
   Colour |-> r.rgb,
   Existing |-> r.more
  ]
\* The figure of a simulated pattern: lines, axes and labels are those given
\* elsewhere; the projection center and the borders are the pattern's
PlotClauses(r) ==
  LET ny == r.sig[1] nx == r.sig[2] p == r.pc
      b == IF r.coordinates = "pixel" THEN D!PixelBorders(ny, nx) ELSE D!GnomonicBorders(ny, nx, p)
      d == IF r.coordinates = "pixel" THEN 1 ELSE ny * p[3]
      Ratio(a) == \A i \in DOMAIN b : Close(a[i] * d, b[i] * 10000, 2 * d)
      center == IF r.coordinates = "gnomonic" THEN <<0, 0>>
                ELSE LET c == D!PixelPC(ny, nx, p) IN <<1000 * c[1], 1000 * c[2]>>
  IN [
   Lines |-> r.lines, ZoneAxes |-> r.axes, Labels |-> r.labels, Pattern |-> r.pattern,
   Center |-> IF r.show THEN r.marks # <<>> /\ \A i \in DOMAIN r.marks : SeqClose(r.marks[i], center, 2)
              ELSE r.marks = <<>>,
   Screen |-> Ratio(r.border),
   Limits |-> Ratio(r.limits),
   DetectorKept |-> r.kept
  ]
\* Different schedules of the same sum
ScheduleClauses(r) == [Same |-> \A i \in DOMAIN r.different : r.different[i] = 0]
RefusedClauses(r) == [Refused |-> r.error = r.want]

TClauses(s, r) ==
  CASE r.op = "lines" -> LineClauses(r)
    [] r.op = "axes" -> ZoneClauses(r)
    [] r.op = "circles" -> CircleClauses(r)
    [] r.op = "plot" -> PlotClauses(r)
    [] r.op = "master" -> MasterClauses(r)
    [] r.op = "schedule" -> ScheduleClauses(r)
    [] r.op = "refused" -> RefusedClauses(r)
=============================================================================
