---------------------------- MODULE TracePCPlane ----------------------------
EXTENDS TraceBase, Num
P == INSTANCE PCPlane WITH Side <- 1, Slopes <- {}, MaxPoints <- 1, plane <- <<>>, meas <- <<>>
TInit == <<>>
TStep(s, r) == s

\* r.pcs: kept PCs, r.at: their positions, r.got[row][col]: extrapolated PCs
SumOf(x, k) == SumSeq([i \in DOMAIN x |-> x[i][k]])
Extrapolated(r, from, n) ==
  \A row \in DOMAIN r.got : \A col \in DOMAIN r.got[row] :
    LET ch == P!Change(n, from, row - 1, col - 1, r.g)
    IN  \A k \in 1..3 : Close(n * r.got[row][col][k], SumOf(r.pcs, k) + ch[k], 3 * n)
\* The known finding: positions of several PCs given as (2, n) are averaged
\* over the wrong axis
Wrong(r) == <<r.at[1][1] + r.at[1][2], r.at[2][1] + r.at[2][2]>>
Reference(r, n) ==
  \E row \in P!Near(SumOf(r.at, 1), n) : \E col \in P!Near(SumOf(r.at, 2), n) :
    Extrapolated(r, <<row, col>>, n)
ExtrapolateClauses(r) ==
  LET n == Len(r.at) IN
  [
   Shape |-> Len(r.got) = r.nav[1] /\ \A i \in DOMAIN r.got : Len(r.got[i]) = r.nav[2],
   Steps |-> \A row \in DOMAIN r.got : \A col \in DOMAIN r.got[row] :
     LET ch == P!Change(1, <<0, 0>>, row - 1, col - 1, r.g)
     IN  \A k \in 1..3 : Close(r.got[row][col][k] - r.got[1][1][k], ch[k], 3),
   Reference |->
     \/ Reference(r, n)
     \/ /\ r.layout = "rows" /\ n > 1
        /\ \E row \in P!Near(Wrong(r)[1], 2) : \E col \in P!Near(Wrong(r)[2], 2) :
             Extrapolated(r, <<(n * row) \div 2, (n * col) \div 2>>, n),
   Detector |-> r.detector = r.detector0,
   InputsKept |-> r.kept
  ]
\* Keyed by its one case
LayoutClauses(r) == [DocumentedLayout |-> Reference(r, Len(r.at))]

\* r.plane: [b, dr, dc], r.map: positions, r.got: fitted PCs
OnPlane(p, at, pc, tol) ==
  \A k \in 1..3 : Close(pc[k], p.b[k] + at[1] * p.dr[k] + at[2] * p.dc[k], tol)
FitClauses(r) ==
  [
   Shape |-> r.shape = r.shape0,
   Plane |-> Len(r.got) = Len(r.map) /\
             \A i \in DOMAIN r.map : OnPlane(r.plane, r.map[i], r.got[i], 3),
   SampleTilt |-> r.tilt0 # NaNVal => Close(r.tilt, r.tilt0, 5),
   Detector |-> r.detector = r.detector0,
   InputsKept |-> r.kept
  ]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
\* r.normal: 1000 times the estimated unit normal of the plane through the
\* origin spanned by integer vectors u and v
TiltClauses(r) ==
  LET n == Cross(r.u, r.v)
      size == MaxOf(Abs(n[1]), MaxOf(Abs(n[2]), Abs(n[3])))
      x == Cross(n, r.normal)
  IN [
   Normal |-> \A k \in 1..3 : Abs(x[k]) <= 4 * size,
   TowardsScreen |-> r.normal[3] >= 0,
   Linear |-> r.xtilt0 # NaNVal => Close(r.xtilt, r.xtilt0, 5),
   Robust |-> r.xtilt0 # NaNVal => Close(r.robust, r.xtilt0, 5),
   Outliers |-> r.xtilt0 # NaNVal => r.outliers = r.outliers0,
   Units |-> Close(r.radians, r.robust, 5)
  ]
\* Moving screen: features seen in p + m d and p + k d
ScreenClauses(r) ==
  [
   Lines |-> r.lines = (r.n * (r.n - 1)) \div 2,
   Here |-> \A i \in DOMAIN r.all :
     /\ Close(r.all[i][1] * r.ncols, 10000 * r.p[1], 2 * r.ncols)
     /\ Close(r.all[i][2] * r.nrows,
              10000 * (IF r.convention = "tsl" THEN r.nrows - r.p[2] ELSE r.p[2]), 2 * r.nrows)
     /\ Close(r.all[i][3] * (r.k - r.m) * r.height, 10000 * r.delta * r.m,
              2 * (r.k - r.m) * r.height),
   Number |-> Len(r.all) = (r.n * (r.n - 1)) \div 2,
   Mean |-> \A k \in 1..3 : Close(r.pc[k], r.all[1][k], 2)
  ]
SeqEqualClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SeqClose(a[i], b[i], tol)
SelectIn(a, keep) == LET ks == SelectSeq([i \in DOMAIN a |-> i], LAMBDA i : keep[i])
                     IN  [j \in DOMAIN ks |-> a[ks[j]]]
\* Figures.  Points in any order
Among(p, ps, tol) == \E i \in DOMAIN ps : SeqClose(p, ps[i], tol)
SameBag(a, b, tol) == /\ Len(a) = Len(b)
                      /\ \A i \in DOMAIN a : Among(a[i], b, tol)
                      /\ \A i \in DOMAIN b : Among(b[i], a, tol)
Coordinate(name) == CASE name = "PCx" -> 1 [] name = "PCy" -> 2 [] name = "PCz" -> 3
As(labels, ps) == [i \in DOMAIN ps |-> [k \in DOMAIN labels |-> ps[i][Coordinate(labels[k])]]]
\* PCs are on a plane: the fit is in the PCs
FitFigureClauses(r) ==
  [
   Axes |-> /\ Len(r.axes) = 4
            /\ \A a, b \in 1..4 : a # b => r.axes[a].labels # r.axes[b].labels
            /\ Len(r.axes[4].labels) = 3,
   Measured |-> \A a \in DOMAIN r.axes : \E k \in DOMAIN r.axes[a].points :
                  SeqEqualClose(r.axes[a].points[k], As(r.axes[a].labels, r.pcs), 0),
   Fitted |-> \A a \in DOMAIN r.axes :
                /\ Len(r.axes[a].points) = 2
                /\ \A k \in 1..2 : SameBag(r.axes[a].points[k], As(r.axes[a].labels, r.pcs), 3),
   Line |-> \A a \in DOMAIN r.axes : \A k \in DOMAIN r.axes[a].lines :
              /\ r.axes[a].labels = <<"PCz", "PCy">>
              /\ r.flat => SameBag(r.axes[a].lines[k], As(r.axes[a].labels, r.pcs), 3),
   OneLine |-> Len(r.axes[3].lines) = 1,
   SameResult |-> r.same
  ]
TiltFigureClauses(r) ==
  LET ax == r.axis
      all == As(ax.labels, r.pcs)
      bad == As(ax.labels, SelectIn(r.pcs, r.out))
      good == As(ax.labels, SelectIn(r.pcs, [i \in DOMAIN r.out |-> ~r.out[i]]))
      line == ax.lines[1]
      zs == [i \in DOMAIN all |-> all[i][1]]
      g1 == good[1]
      slope == CHOOSE i \in DOMAIN good : good[i][1] # g1[1]
      g2 == good[slope]
  IN [
   Labels |-> ax.labels = <<"PCz", "PCy">>,
   Data |-> Len(ax.points) >= 1 /\ SeqEqualClose(ax.points[1], all, 0),
   Outliers |-> IF r.robust THEN Len(ax.points) = 2 /\ SeqEqualClose(ax.points[2], bad, 0)
                ELSE Len(ax.points) = 1,
   Line |-> /\ Len(ax.lines) = 1 /\ Len(line) >= 2
            /\ Close(line[1][1], MinSeq(zs), 1) /\ Close(line[Len(line)][1], MaxSeq(zs), 1)
            /\ \A i \in DOMAIN line :
                 Close((line[i][2] - g1[2]) * (g2[1] - g1[1]), (g2[2] - g1[2]) * (line[i][1] - g1[1]),
                       4 * (Abs(g2[1] - g1[1]) + Abs(g2[2] - g1[2]))),
   Said |-> Close(r.said, r.tilt, 1),
   SameResult |-> r.same
  ]
RefusedClauses(r) == [Refused |-> r.error = r.want]

TClauses(s, r) ==
  CASE r.op = "extrapolate" -> ExtrapolateClauses(r)
    [] r.op = "layout" -> LayoutClauses(r)
    [] r.op = "fit" -> FitClauses(r)
    [] r.op = "tilt" -> TiltClauses(r)
    [] r.op = "fitfigure" -> FitFigureClauses(r)
    [] r.op = "tiltfigure" -> TiltFigureClauses(r)
    [] r.op = "screen" -> ScreenClauses(r)
    [] r.op = "refused" -> RefusedClauses(r)
=============================================================================
