------------------------ MODULE TraceVirtualImaging ------------------------
EXTENDS TraceBase, Num
V == INSTANCE VirtualImaging WITH MaxS <- 1, s <- 1, g <- 1, b <- <<>>
TInit == <<>>
TStep(s, r) == s


\* The pixels that the image of tile (r, c) sums, seen from single-pixel patterns
TileSet(r, i, j) == ToSet(r.tiles[i + 1][j + 1])

GridClauses(r) ==
  [TileIsRectangleAtPosition |->
     \A i \in Range0(r.gy) : \A j \in Range0(r.gx) :
       V!IsTile(TileSet(r, i, j), i, j, r.sy, r.sx, r.gy, r.gx),
   TilesPartition |->
     \A p \in Range0(r.sy * r.sx) :
       Cardinality({t \in Range0(r.gy) \X Range0(r.gx) : p \in TileSet(r, t[1], t[2])}) = 1,
   SinglePixelWeightOne |-> r.unit_weights,
   RoiOfTileIsTile |->
     \A i \in Range0(r.gy) : \A j \in Range0(r.gx) :
       ToSet(r.roi_tiles[i + 1][j + 1]) = TileSet(r, i, j),
   ImageIsSumOfTile |->
     \A i \in Range0(r.gy) : \A j \in Range0(r.gx) : \A p \in 1..Len(r.P) :
       r.img[i + 1][j + 1][p] = V!SumOver(r.P[p], TileSet(r, i, j)),
   ImageShape |-> r.img_shape = <<r.gy, r.gx>> \o r.nav,
   ImageAxesOfMap |-> r.img_axes = r.nav_axes,
   OutputType |-> r.img_dtype = r.dtype_out,
   NotLazy |-> ~r.img_lazy,
   OperandUntouched |-> r.same]

RoiClauses(r) ==
  LET S == IF r.kind = "rect" THEN V!Rect(r.r0, r.r1, r.c0, r.c1, r.sx)
           ELSE ToSet(r.pixels)
  IN  [SumOverRegion |-> \A p \in 1..Len(r.P) : r.img[p] = V!SumOver(r.P[p], S),
       ImageShape |-> r.img_shape = r.want_shape,
       ImageAxesOfMap |-> r.img_axes = r.nav_axes,
       LazyIffLazy |-> r.img_lazy = r.lazy,
       SignalType |-> r.img_type,
       OperandUntouched |-> r.same]

\* The grid as drawn, in thousandths of a pixel from the corner of the first
\* pixel: boundary k of n tiles of s pixels is at k * s / n
AtBoundary(x, k, size, n) == Close(x * n, k * size * 1000, 4 * n)
InTile(x, k, size, n) == k * size * 1000 - 4 <= x * n /\ x * n < (k + 1) * size * 1000
DrawnClauses(r) ==
  LET AtTile(b, i, j) ==
        /\ AtBoundary(b[1], i, r.sy, r.gy) /\ AtBoundary(b[2], i + 1, r.sy, r.gy)
        /\ AtBoundary(b[3], j, r.sx, r.gx) /\ AtBoundary(b[4], j + 1, r.sx, r.gx)
  IN [RowLines |-> /\ Len(r.rows) = r.gy + 1
                   /\ \A k \in 1..(r.gy + 1) : AtBoundary(r.rows[k], k - 1, r.sy, r.gy),
      ColumnLines |-> /\ Len(r.cols) = r.gx + 1
                      /\ \A k \in 1..(r.gx + 1) : AtBoundary(r.cols[k], k - 1, r.sx, r.gx),
      ColouredTiles |-> /\ Len(r.boxes) = Len(r.colours)
                        /\ \A k \in DOMAIN r.boxes :
                             /\ r.boxes[k][1] = r.colours[k][1]
                             /\ AtTile(Tail(r.boxes[k]), r.colours[k][2], r.colours[k][3]),
      \* Each in its tile
      Indices |-> r.labels =>
        /\ {<<x[3], x[4]>> : x \in ToSet(r.texts)} = Range0(r.gy) \X Range0(r.gx)
        /\ Len(r.texts) = r.gy * r.gx
        /\ \A k \in DOMAIN r.texts :
             LET x == r.texts[k] IN /\ InTile(x[1], x[3], r.sy, r.gy)
                                    /\ InTile(x[2], x[4], r.sx, r.gx),
      NoIndices |-> ~r.labels => r.texts = <<>>,
      PatternAskedFor |-> r.pattern]

\* r.ch[k] : for each channel a list of pixel sets (to add up)
RgbClauses(r) ==
  LET np == Len(r.P)
      raw(k, p) == FoldSeq(LAMBDA S, acc : acc + V!SumOver(r.P[p], ToSet(S)), 0, r.ch[k])
      x == [k \in 1..3 |-> [p \in 1..np |-> raw(k, p) * (IF r.alpha = <<>> THEN 1
                                             ELSE r.alpha[p] - Min(ToSet(r.alpha)))]]
      all == SortSeq(x[1] \o x[2] \o x[3], <)
      lo == IF r.perc = <<>> THEN all[1] * 100 ELSE V!Percentile100(all, r.perc[1])
      hi == IF r.perc = <<>> THEN all[Len(all)] * 100 ELSE V!Percentile100(all, r.perc[2])
      mid(v) == v > 0 /\ v < r.max - r.tol
  IN  [JointStretch |->
         ~r.normalize /\ hi > lo =>
           \A k \in 1..3 : \A p \in 1..np :
             Close(r.rgb[k][p], V!Stretch(x[k][p] * 100, lo, hi, r.max), r.tol),
       ChannelOrder |->
         r.alpha = <<>> =>
           \A k \in 1..3 : \A p \in 1..np : \A t \in 1..np :
             raw(k, p) <= raw(k, t) => r.rgb[k][p] <= r.rgb[k][t] + 1,
       ChannelAffine |->
         r.normalize /\ r.alpha = <<>> =>
           \A k \in 1..3 : \A p \in 1..np : \A t \in 1..np : \A u \in 1..np :
             mid(r.rgb[k][p]) /\ mid(r.rgb[k][t]) /\ mid(r.rgb[k][u])
               /\ raw(k, p) < raw(k, t) /\ raw(k, t) < raw(k, u)
             => Abs((r.rgb[k][t] - r.rgb[k][p]) * (raw(k, u) - raw(k, p))
                    - (r.rgb[k][u] - r.rgb[k][p]) * (raw(k, t) - raw(k, p)))
                <= 2 * r.tol * (raw(k, u) - raw(k, p)),
       FillsRange |->
         hi > lo /\ (r.alpha = <<>> \/ ~r.normalize) /\ r.perc = <<>> =>
           /\ \E k \in 1..3 : \E p \in 1..np : r.rgb[k][p] = 0
           /\ \E k \in 1..3 : \E p \in 1..np : r.rgb[k][p] >= r.max - 1,
       AlphaZeroIsDark |->
         r.alpha # <<>> =>
           \A k \in 1..3 : \A p \in 1..np :
             r.alpha[p] = Min(ToSet(r.alpha)) => r.rgb[k][p] = 0,
       ImageShape |-> r.img_shape = r.nav,
       ImageAxesOfMap |-> r.img_axes = r.nav_axes,
       OutputType |-> r.img_dtype = r.dtype_out,
       OperandUntouched |-> r.same]

TClauses(s, r) ==
  CASE r.op = "grid" -> GridClauses(r)
    [] r.op = "roi" -> RoiClauses(r)
    [] r.op = "rgb" -> RgbClauses(r)
    [] r.op = "drawn" -> DrawnClauses(r)
============================================================================
