------------------------ MODULE TraceGridExtraction ------------------------
EXTENDS TraceBase, Num
G == INSTANCE GridExtraction WITH MaxN <- 1, n <- 1, g <- 1, start <- 0, step <- 1,
       taken <- <<>>
TInit == <<>>
TStep(s, r) == s

\* All are in order of array axes. r.idx[k] is the flat sequence of positions
\* on axis k of the extracted patterns in row-major order.
Flat(r, j) == IF Len(r.nav) = 1 THEN r.idx[1][j] ELSE r.idx[1][j] * r.nav[2] + r.idx[2][j]
TClauses(s, r) ==
  LET nd == Len(r.nav)
      np == ProdSeq(r.grid)
      \* Index on axis k of the j-th point of the grid in row-major order
      axis(k, j) == IF nd = 1 \/ k = nd THEN (j - 1) % r.grid[nd] ELSE (j - 1) \div r.grid[nd]
  IN  [GridShape |-> r.shape = r.grid /\ r.idx_shape = <<nd>> \o r.grid,
       EquallySpaced |->
         \A k \in 1..nd : \A j \in 1..np :
           r.idx[k][j] = G!Position(r.start[k], r.spacing[k], axis(k, j)),
       InsideMap |-> \A k \in 1..nd : G!Fits(r.start[k], r.spacing[k], r.nav[k], r.grid[k]),
       CenteredInMap |->
         \A k \in 1..nd : G!Centered(r.start[k], r.spacing[k], r.nav[k], r.grid[k]),
       PatternAtPosition |-> \A j \in 1..np : r.pat[j] = Flat(r, j),
       PatternUnchanged |-> r.rest /\ r.dtype = r.dtype_in,
       CenterAtPosition |->
         CASE r.pc_kind = "per" -> r.pc_shape = r.grid
                                   /\ \A j \in 1..np : r.pc[j] = Flat(r, j)
           [] r.pc_kind = "one" -> r.pc_shape = <<1>> /\ r.pc = <<7>>,
       MapPointAtPosition |->
         r.xmap_in /\ r.xmap # <<>> =>
           /\ r.xmap_shape = r.grid
           /\ \A j \in 1..np : r.xmap[j] = Flat(r, j) /\ r.xmap_phase[j] = Flat(r, j) % 2
           /\ \A j \in 1..np : r.xmap_rot[j] = Flat(r, j),
       \* A map of a single row or column cannot hold two dimensions
       MapKept |-> r.xmap_in /\ ProdSeq(r.nav) > 1 /\ (nd = 1 \/ (r.grid[1] > 1 /\ r.grid[2] > 1)) => r.xmap # <<>>,
       StepIsSpacing |->
         \A k \in 1..nd : r.scales[k] = r.spacing[k] * r.scales_in[k] /\ r.units[k] = r.units_in[k],
       SignalAxesKept |-> r.sig_axes = r.sig_axes_in,
       BackgroundKept |-> r.bg = r.bg_in,
       LazyIffLazy |-> r.lazy_out = r.lazy,
       OperandUntouched |-> r.same]
============================================================================
