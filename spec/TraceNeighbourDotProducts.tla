---------------------- MODULE TraceNeighbourDotProducts ----------------------
EXTENDS TraceBase, Num
D == INSTANCE NeighbourDotProducts WITH MaxN <- 1, MaxW <- 1, n <- 1, w <- 1,
       chunks <- <<>>, todo <- {}, got <- <<>>
TInit == <<>>
TStep(s, r) == s

\* r.m[p][i][j]: matrices; r.avg[p], r.avg_m[p]: the map without and with
\* precomputed matrices
TClauses(s, r) ==
  LET ys == Range0(r.ny)
      xs == Range0(r.nx)
      is == Range0(Len(r.W))
      js == Range0(Len(r.W[1]))
      m(y, x, i, j) == r.m[D!At(r.nx, y, x)][i + 1][j + 1]
      pat(t) == r.P[D!At(r.nx, t[1], t[2])]
      nb(y, x) == D!NeighboursOf(r.ny, r.nx, r.W, y, x)
      \* In the units of the logged map
      want(y, x) ==
        FoldSet(LAMBDA t, acc : acc + (IF r.nm THEN D!NormDot(pat(<<y, x>>), pat(t), r.zm)
                                       ELSE D!Dot(pat(<<y, x>>), pat(t), r.zm)),
                0, nb(y, x))
      mean(v, y, x) ==
        LET c == Cardinality(nb(y, x))
        IN  IF c = 0 THEN v = NaNVal
            ELSE Abs(v * c - want(y, x)) <= c * (IF r.nm THEN 6 ELSE 1)
  IN  [MapShape |-> r.m_shape = r.nav \o r.wshape /\ r.avg_shape = r.nav
                    /\ r.avg_m_shape = r.nav,
       DeclaredShape |-> r.m_decl = r.nav \o r.wshape,
       LazyIffLazy |-> r.m_lazy = r.lazy /\ r.avg_lazy = r.lazy,
       OutputType |-> r.m_dtype = r.dtype_out /\ r.avg_dtype = r.dtype_out,
       ValueAtOwnOffset |->
         \A y \in ys : \A x \in xs : \A i \in is : \A j \in js :
            IF D!HasValue(r.ny, r.nx, r.W, y, x, i, j)
            THEN D!DotIs(m(y, x, i, j), pat(<<y, x>>), pat(D!Seen(r.W, y, x, i, j)), r.zm, r.nm)
            ELSE m(y, x, i, j) = NaNVal,
       AverageOfNeighbours |->
         \A y \in ys : \A x \in xs : mean(r.avg[D!At(r.nx, y, x)], y, x),
       AverageFromMatrices |->
         \A y \in ys : \A x \in xs : mean(r.avg_m[D!At(r.nx, y, x)], y, x),
       OperandsUntouched |-> r.same]
=============================================================================
