-------------------------- MODULE TraceIntensity --------------------------
EXTENDS TraceBase, Num
I == INSTANCE Intensity WITH MaxV <- 1, MaxOut <- 1, p0 <- <<>>, p <- <<>>, last <- ""
TInit == <<>>
TStep(s, r) == s

\* r.x : patterns of input intensities, r.y : patterns of output intensities
\* in a unit in which the output range is r.a..r.b
Flat(xs) == FoldLeft(LAMBDA u, v : u \o v, <<>>, xs)

\* The input range of pattern k, in units of 1 / 100
Range100(r, k) ==
  CASE r.mode = "own" -> <<100 * MinSeq(r.x[k]), 100 * MaxSeq(r.x[k])>>
    [] r.mode = "given" -> r.given
    [] r.mode = "percentiles" ->
         <<I!Percentile100(r.x[k], r.given[1]), I!Percentile100(r.x[k], r.given[2])>>
    [] r.mode = "relative" ->
         <<100 * Min({MinSeq(r.x[j]) : j \in 1..Len(r.x)}),
           100 * Max({MaxSeq(r.x[j]) : j \in 1..Len(r.x)})>>

Frame(r) ==
  [DataType |-> r.dtype = r.want_dtype,
   Shape |-> r.shape = r.want_shape,
   Laziness |-> r.lazy = r.want_lazy,
   AxesAndMetadataKept |-> r.kept,
   OperandUntouched |-> r.same]

RescaleClauses(r) ==
  [LinearIntoRange |->
     \A k \in 1..Len(r.x) :
       LET g == Range100(r, k)
       IN  g[2] > g[1] =>
             I!StretchOK(r.y[k], [i \in 1..Len(r.x[k]) |-> 100 * r.x[k][i]],
                         g[1], g[2], r.a, r.b, r.tol, r.tolx),
   OrderKept |-> \A k \in 1..Len(r.x) :
       LET g == Range100(r, k) IN g[2] > g[1] => I!OrderKept(r.x[k], r.y[k]),
   OrderKeptBetweenPatterns |->
       r.mode \in {"relative", "given"} =>
         I!OrderKept(Flat(r.x), Flat(r.y)),
   InsideRange |-> \A k \in 1..Len(r.x) :
       LET g == Range100(r, k)
       IN  g[2] > g[1] => \A i \in 1..Len(r.y[k]) :
             r.y[k][i] >= r.a - 1 /\ r.y[k][i] <= r.b + 1]
  @@ Frame(r)

\* Zero mean, and a standard deviation of 1 / num_std (further divided by the root of the
\* number of pixels); r.y in units of 1 / 1000 (of 1 / root)
NormClauses(r) ==
  LET N == Len(r.x[1])
      dev(k, i) == N * r.x[k][i] - SumSeq(r.x[k])
  IN  [ZeroMean |-> \A k \in 1..Len(r.x) : Abs(SumSeq(r.y[k])) <= 2 * N,
       Deviation |-> \A k \in 1..Len(r.x) :
         Close(SumSeq([i \in 1..N |-> r.y[k][i] * r.y[k][i]]) \div N,
               1000000 \div (r.num * r.num), 4000),
       Linear |-> \A k \in 1..Len(r.x) : \A i \in 1..N : \A j \in 1..N :
         Abs(dev(k, i) * r.y[k][j] - dev(k, j) * r.y[k][i])
           <= 2 * (Abs(dev(k, i)) + Abs(dev(k, j))),
       OrderKept |-> \A k \in 1..Len(r.x) : I!OrderKept(r.x[k], r.y[k])]
      @@ Frame(r)

AheClauses(r) ==
  [FillsRange |-> \A k \in 1..Len(r.y) : MinSeq(r.y[k]) = r.a /\ Close(MaxSeq(r.y[k]), r.b, 1),
   DefaultKernelIsQuarter |-> r.y = r.quarter,
   EachPatternAlone |-> r.y = r.alone] @@ Frame(r)

StaticClauses(r) ==
  [CorrectedPattern |->
     \A k \in 1..Len(r.x) :
       LET v == IF r.operation = "subtract" THEN I!Subtracted(r.x[k], r.bg, r.scaled)
                ELSE I!Divided(r.x[k], r.bg, r.scaled, r.k)
       IN  MaxSeq(v) - MinSeq(v) > r.least =>
             I!StretchOK(r.y[k], v, MinSeq(v), MaxSeq(v), r.a, r.b, r.tol, r.tolx)]
  @@ Frame(r)

Blur(r, k) == I!Blur100(r.x[k], r.sy, r.sx, r.w, r.W, r.o, r.boundary)

DynamicClauses(r) ==
  [CorrectedPattern |->
     \A k \in 1..Len(r.x) :
       LET b == Blur(r, k)
           v == IF r.operation = "subtract"
                THEN [i \in 1..Len(b) |-> 100 * r.x[k][i] - b[i]]
                ELSE [i \in 1..Len(b) |-> RoundDiv(r.x[k][i] * 100000, b[i])]
       IN  MaxSeq(v) - MinSeq(v) > r.least =>
             I!StretchOK(r.y[k], v, MinSeq(v), MaxSeq(v), r.a, r.b, r.tol, r.tolx)]
  @@ Frame(r)

\* r.y in units of 1 / 100
GetDynamicClauses(r) ==
  [BlurredPattern |-> \A k \in 1..Len(r.x) : SeqClose(r.y[k], Blur(r, k), r.tol)]
  @@ Frame(r)

DownClauses(r) ==
  IF r.refused
  THEN [RefusedOnlyIfMust |-> r.sy % r.f # 0 \/ r.sx % r.f # 0 \/ r.f < 2,
        OperandUntouched |-> r.same]
  ELSE
  [RefusedIfMust |-> r.sy % r.f = 0 /\ r.sx % r.f = 0 /\ r.f >= 2,
   BlockMeans |->
     \A k \in 1..Len(r.x) :
       LET v == I!Binned(r.x[k], r.sy, r.sx, r.f)
       IN  MaxSeq(v) > MinSeq(v) =>
             I!StretchOK(r.y[k], v, MinSeq(v), MaxSeq(v), r.a, r.b, r.tol, r.tolx),
   BackgroundBlockMeans |->
     r.bg # <<>> =>
       LET v == I!Binned(r.bg, r.sy, r.sx, r.f)
       IN  MaxSeq(v) > MinSeq(v) =>
             I!StretchOK(r.bg_new, v, MinSeq(v), MaxSeq(v), r.a, r.b, r.tol, r.tolx),
   BackgroundKept |-> (r.bg = <<>>) = (r.bg_new = <<>>),
   DetectorShape |-> r.det_shape = <<r.sy \div r.f, r.sx \div r.f>>,
   DetectorBinning |-> r.binning_new = r.binning * r.f,
   DetectorPC |-> r.pc_new = r.pc,
   DetectorRest |-> r.det_rest] @@ Frame(r)

TClauses(s, r) ==
  CASE r.op = "rescale" -> RescaleClauses(r)
    [] r.op = "norm" -> NormClauses(r)
    [] r.op = "ahe" -> AheClauses(r)
    [] r.op = "static" -> StaticClauses(r)
    [] r.op = "dynamic" -> DynamicClauses(r)
    [] r.op = "getdyn" -> GetDynamicClauses(r)
    [] r.op = "down" -> DownClauses(r)
============================================================================
