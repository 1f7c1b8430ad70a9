--------------------- MODULE TraceOrientationSimilarity ---------------------
EXTENDS TraceBase, Num
O == INSTANCE OrientationSimilarity WITH MaxY <- 1, MaxX <- 1, Keep <- 1, Ids <- {},
       Footprints <- {}, ny <- 1, nx <- 1, S <- <<>>, F <- <<>>, nb <- 1, nf <- 1,
       n <- 1, p <- 0, osm <- <<>>
TInit == <<>>
TStep(s, r) == s
Scale == 100000

\* r.out[layer][point], scaled; layer 1 is n_best
TClauses(s, r) ==
  LET layers == 1..(r.nb - r.nf + 1)
      val(i, y, x) == r.out[i][y * r.nx + x + 1]
      nof(i) == r.nb - i + 1
      cnt(y, x) == O!Count(r.ny, r.nx, r.F, y, x)
      tot(i, y, x) == O!Total(r.S, r.ny, r.nx, r.F, y, x, nof(i))
      div(i) == IF r.normalize THEN nof(i) ELSE 1
  IN  [ShapeOfMap |-> Len(r.out) = r.nb - r.nf + 1
                      /\ \A i \in 1..Len(r.out) : Len(r.out[i]) = r.ny * r.nx
                      /\ r.shape = r.want_shape,
       MeanCommonMatches |->
         \A i \in layers : \A y \in Range0(r.ny) : \A x \in Range0(r.nx) :
            LET c == cnt(y, x) * div(i)
            IN  c # 0 => Abs(val(i, y, x) * c - tot(i, y, x) * Scale) <= c * 2,
       LonePointHasNone |->
         \A i \in layers : \A y \in Range0(r.ny) : \A x \in Range0(r.nx) :
            cnt(y, x) = 0 => val(i, y, x) = NaNVal,
       OperandsUntouched |-> r.same]
=============================================================================
