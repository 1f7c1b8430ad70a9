-------------------------- MODULE TraceSimulation --------------------------
EXTENDS TraceBase, Num
S == INSTANCE Simulation WITH Shapes <- {}, nav <- <<1>>, each <- TRUE, chunk <- 1,
                              todo <- {}, out <- <<>>
TInit == <<>>
TStep(s, r) == s

Pc(r, i) == r.pcs[S!PcOf(i, Len(r.pcs) > 1)]
DirOf(r, i, p, f) ==
  S!Direction((p - 1) \div r.sig[2], (p - 1) % r.sig[2], r.sig[1], r.sig[2], Pc(r, i), f,
              r.rots[i])

Placed(r) ==
  [
   NavigationShape |-> r.got.nav = r.nav,
   SignalShape |-> r.got.sig = r.sig,
   DataType |-> r.got.dtype = r.dtype,
   Class |-> r.got.lazy = r.lazy,
   OwnRotations |-> r.got.rots,
   OwnDetector |-> r.got.detector,
   OwnPhase |-> r.got.phase
  ]

DirClauses(r) ==
  LET f == S!Frame(r.angles[1], r.angles[2], r.angles[3], r.angles[4])
      n == r.sig[1] * r.sig[2]
  IN
  [
   \* r.dirs[i][p] is where in the master pattern pixel p of pattern i comes from
   PixelDirection |->
     \A i \in DOMAIN r.rots : \A p \in 1..n :
       \E d \in S!Seen(DirOf(r, i, p, f), r.hemisphere) : S!Parallel(d, r.dirs[i][p], 6),
   Hemisphere |->
     \A i \in DOMAIN r.rots : \A p \in 1..n :
       LET d == DirOf(r, i, p, f)
       IN  S!AbsV(d[3]) > S!MaxAbs(d) \div 100 =>
             r.side[i][p] = (IF r.hemisphere = "both" THEN (IF d[3] > 0 THEN 0 ELSE 1)
                             ELSE IF r.hemisphere = "upper" THEN 0 ELSE 1),
   Energy |-> \A i \in DOMAIN r.rots : \A p \in 1..n : r.energy[i][p] = r.expected
  ]

\* r.raw: the pattern of the point alone, not rescaled, in 64-bit floats
ValueClauses(r) ==
  [
   Rescaled |->
     r.rescaled => \A i \in DOMAIN r.raw : \A p \in DOMAIN r.raw[i] :
       Close(r.level[i][p], r.raw[i][p], r.tol),
   SameValues |->
     (~r.rescaled /\ ~r.integer) => \A i \in DOMAIN r.raw : \A p \in DOMAIN r.raw[i] :
       Close(r.level[i][p], r.raw[i][p], r.tol),
   WholeValues |->
     (~r.rescaled /\ r.integer) => \A i \in DOMAIN r.raw : \A p \in DOMAIN r.raw[i] :
       Abs(100 * r.level[i][p] - r.raw[i][p]) <= 101
  ]

RefusedClauses(r) == [Refused |-> r.error = "ValueError"]

TClauses(s, r) ==
  CASE r.op = "dirs" -> Placed(r) @@ DirClauses(r)
    [] r.op = "values" -> Placed(r) @@ ValueClauses(r)
    [] r.op = "refused" -> RefusedClauses(r)
=============================================================================
