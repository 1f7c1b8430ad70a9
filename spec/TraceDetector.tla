--------------------------- MODULE TraceDetector ---------------------------
EXTENDS TraceBase, Num
D == INSTANCE Detector WITH MaxN <- 1, MaxH <- 1, Convs <- {}, ny <- 1, nx <- 1,
                            top <- 0, left <- 0, pt <- [x |-> 0], hist <- <<>>
TInit == <<>>
\* The last observed detector of the history
TStep(s, r) == IF r.op \in {"geometry", "frame"} THEN s ELSE r

Pts(r) == 1..Len(r.P)

GeometryClauses(r) ==
  LET ny == r.shape[1]
      nx == r.shape[2]
      a(o, conv) == \A i \in Pts(r) :
        CASE conv = "tsl" -> D!InTsl(o[i], r.P[i], ny, nx)
          [] conv = "oxford" -> D!InOxford(o[i], r.P[i], ny, nx)
  IN
  [StoredInBruker |-> \A i \in Pts(r) : \A k \in 1..3 :
      Close(r.bruker[i][k], 1000 * r.P[i][k], 1),
   InTsl |-> a(r.tsl, "tsl"),
   InOxford |-> a(r.oxford, "oxford"),
   InEmsoft |-> \A i \in Pts(r) :
      /\ D!InEmsoft(r.emsoft5[i], r.P[i], ny, nx, r.b, r.d, 5)
      /\ D!InEmsoft(r.emsoft4[i], r.P[i], ny, nx, r.b, r.d, 4),
   FromTsl |-> \A i \in Pts(r) : D!FromTsl(r.from_tsl[i], r.P[i], ny, nx),
   FromOxford |-> \A i \in Pts(r) : D!FromOxford(r.from_oxford[i], r.P[i], ny, nx),
   FromEmsoft |-> \A i \in Pts(r) :
      /\ D!FromEmsoft(r.from_emsoft5[i], r.E[i], ny, nx, r.b, r.d, 5)
      /\ D!FromEmsoft(r.from_emsoft4[i], r.E[i], ny, nx, r.b, r.d, 4),
   ConventionsInvert |-> \A c \in DOMAIN r.back : SeqSeqClose(r.back[c], r.bruker, 1),
   AliasesAgree |-> r.aliases,
   GnomonicBounds |-> \A i \in Pts(r) :
      /\ D!XMin(r.gb[i][1], r.P[i], ny, nx)
      /\ D!XMax(r.gb[i][2], r.P[i], ny, nx)
      /\ D!YMin(r.gb[i][3], r.P[i])
      /\ D!YMax(r.gb[i][4], r.P[i]),
   RangesAreBounds |-> r.ranges,
   Scales |-> \A i \in Pts(r) :
      /\ D!Is(r.scale[i][1], r.gb[i][2] - r.gb[i][1], MaxOf(nx - 1, 1))
      /\ D!Is(r.scale[i][2], r.gb[i][4] - r.gb[i][3], MaxOf(ny - 1, 1)),
   LargestRadius |-> \A i \in Pts(r) :
      D!RMax(r.rmax[i], [k \in 1..2 |-> r.gb3[i][k]], [k \in 1..2 |-> r.gb3[i][k + 2]]),
   PixelToGnomonic |-> \A i \in Pts(r) : \A j \in 1..Len(r.px) :
      /\ D!GnY(r.to_gn[i][j][1], r.px[j][1], r.P[i], ny, nx)
      /\ D!GnX(r.to_gn[i][j][2], r.px[j][2], r.P[i], ny, nx),
   GnomonicToPixel |-> \A i \in Pts(r) : \A j \in 1..Len(r.gn) :
      /\ D!PxY(r.to_px[i][j][1], r.gn[j][1], r.P[i], ny, nx)
      /\ D!PxX(r.to_px[i][j][2], r.gn[j][2], r.P[i], ny, nx),
   RoundTrip |-> \A i \in Pts(r) : \A j \in 1..Len(r.px) : \A k \in 1..2 :
      Close(r.round[i][j][k], 100 * r.px[j][k], 1),
   OnePosition |-> r.one_pos,
   Sizes |->
      /\ r.bounds = <<0, nx - 1, 0, ny - 1>>
      /\ r.counts = <<ny, nx, ny * nx, Len(r.nav), Len(r.P)>>
      /\ D!Is(r.aspect, 10000 * nx, ny)
      /\ Close(r.height, ny * r.d * r.b, 1) /\ Close(r.width, nx * r.d * r.b, 1)
      /\ Close(r.pxb, r.d * r.b, 1)
      /\ \A i \in Pts(r) : D!Is(r.ssd[i], r.P[i][3] * ny * r.b * r.d, 100),
   Average |-> \A k \in 1..3 :
      D!Is(r.avg[k], 1000 * SumSeq([i \in Pts(r) |-> r.P[i][k]]), Len(r.P)),
   ReadingChangesNothing |-> r.same]

FrameClauses(r) ==
  [Orthonormal |-> \A i \in 1..3 : \A j \in 1..3 :
      Close(D!Dot(r.m[i], r.m[j]), IF i = j THEN 100000000 ELSE 0, 60000),
   RightHanded |-> \A k \in 1..3 :
      Close(D!Cross(r.m[1], r.m[2])[k], 10000 * r.m[3][k], 60000),
   QuarterTurns |-> r.quarter =>
      LET f == D!Frame(r.k[1], r.k[2], r.k[3], r.k[4])
      IN  \A i \in 1..3 : \A j \in 1..3 : Close(r.m[i][j], 10000 * f[i][j], 2),
   OnlyTiltDifferenceCounts |-> SeqSeqClose(r.m, r.m_shift, 3),
   TwistAboutNormal |-> SeqClose(r.m[3], r.m_untwisted[3], 3),
   Euler |-> r.euler = <<-r.ang[3], 9000 + r.ang[2], -r.ang[4]>>]

\* Histories.  pc scaled by 10^5; an attribute not named by the operation stays
Attrs == {"b", "d", "ang"}
SameAttrs(s, r) == \A a \in Attrs : r[a] = s[a]
SamePcs(s, r) == SeqSeqClose(r.pc, s.pc, 2)
HistoryClauses(s, r) ==
  CASE r.op = "new" ->
         [AsGiven |-> /\ r.pc = r.want.pc /\ r.shape = r.want.shape
                      /\ r.nav = r.want.nav /\ \A a \in Attrs : r[a] = r.want[a]]
    [] r.op = "crop" ->
         LET t == r.extent[1]
             b == r.extent[2]
             lf == r.extent[3]
             rt == r.extent[4]
             oy == s.shape[1]
             ox == s.shape[2]
             ny == b - t
             nx == rt - lf
         IN [CropShape |-> r.shape = <<ny, nx>>,
             SamePointAfterCrop |-> \A i \in 1..Len(s.pc) :
                /\ Abs(r.pc[i][1] * nx - s.pc[i][1] * ox + 100000 * lf) <= nx + ox
                /\ Abs(r.pc[i][2] * ny - s.pc[i][2] * oy + 100000 * t) <= ny + oy
                /\ Abs(r.pc[i][3] * ny - s.pc[i][3] * oy) <= ny + oy,
             CropKeepsRest |-> SameAttrs(s, r) /\ r.nav = s.nav,
             OperandUntouched |-> r.same]
    [] r.op \in {"conv", "save", "copy"} ->
         [SamePcs |-> SamePcs(s, r),
          SameShape |-> r.shape = s.shape,
          SameNavigation |-> r.nav = s.nav,
          SameRest |-> SameAttrs(s, r),
          OperandUntouched |-> r.same,
          NotShared |-> r.unshared]
    [] r.op = "nav" ->
         [NavigationShape |-> r.nav = r.to,
          SamePcsInOrder |-> SamePcs(s, r),
          SameShape |-> r.shape = s.shape,
          SameRest |-> SameAttrs(s, r)]
    [] r.op = "shape" ->
         [NewShape |-> r.shape = r.to,
          SamePcs |-> SamePcs(s, r) /\ r.nav = s.nav,
          SameRest |-> SameAttrs(s, r)]
    [] r.op = "setpc" ->
         [OneCoordinateSet |-> \A i \in 1..Len(s.pc) : \A k \in 1..3 :
             IF k = r.coord THEN Close(r.pc[i][k], r.val[i], 1)
             ELSE Close(r.pc[i][k], s.pc[i][k], 1),
          SameNavigation |-> r.nav = s.nav,
          SameShape |-> r.shape = s.shape,
          SameRest |-> SameAttrs(s, r)]
    [] r.op = "attr" ->
         [AttributeSet |-> r[r.name] = r.to,
          OtherAttributes |-> \A a \in Attrs \ {r.name} : r[a] = s[a],
          SamePcs |-> SamePcs(s, r) /\ r.nav = s.nav /\ r.shape = s.shape]
    [] r.op = "refused" ->
         [RefusedLeavesAlone |-> r.raised /\ r.same]

TClauses(s, r) ==
  CASE r.op = "geometry" -> GeometryClauses(r)
    [] r.op = "frame" -> FrameClauses(r)
    [] OTHER -> HistoryClauses(s, r)
=============================================================================
