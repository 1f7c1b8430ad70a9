------------------------ MODULE TraceMasterProjection ------------------------
EXTENDS TraceBase, Num
M == INSTANCE MasterProjection WITH Sizes <- {}, MaxE <- 1, sides <- {}, ne <- 1, n <- 1,
                                    todo <- {}, done <- {}
S == INSTANCE Simulation WITH Shapes <- {}, nav <- <<1>>, each <- TRUE, chunk <- 1,
                              todo <- {}, out <- <<>>
TInit == <<>>
TStep(s, r) == s

\* r.images[k]: [side, f, px]; px: sequence of <<X, Y, intensity>>
ConvertClauses(r) ==
  [
   SameDirection |->
     \A k \in DOMAIN r.images : \A p \in DOMAIN r.images[k].px :
       LET x == r.images[k].px[p]
       IN  Close(x[3], M!Intensity(r.images[k].f, M!LambertVector(x[1], x[2], r.m,
                                                                 r.images[k].side)), r.tol),
   SameShape |-> r.shape = r.shape0,
   FloatOut |-> r.dtype = "float32",
   SameAxes |-> r.axes,
   SamePhase |-> r.phase,
   SameHemisphere |-> r.hemisphere,
   Projection |-> r.projection = "lambert",
   SameClass |-> r.class,
   InputKept |-> r.kept,
   NothingShared |-> r.unshared
  ]

\* Patterns simulated from the converted master pattern.  The direction of a
\* pixel is seen in the hemispheres given.
LoopClauses(r) ==
  LET f == S!Frame(r.angles[1], r.angles[2], r.angles[3], r.angles[4])
      Dirs(i, p) ==
        S!Seen(S!Direction((p - 1) \div r.sig[2], (p - 1) % r.sig[2], r.sig[1], r.sig[2],
                           r.pc, f, r.rots[i]), r.hemisphere)
      Unit(d) == LET len == M!Bisect(d[1] * d[1] + d[2] * d[2] + d[3] * d[3], 0, 4000)
                 IN  <<(10000 * d[1]) \div len, (10000 * d[2]) \div len, (10000 * d[3]) \div len>>
      F(d) == IF d[3] > 0 \/ (d[3] = 0 /\ r.hemisphere # "lower") THEN r.upper ELSE r.lower
  IN
  [
   SimulatedDirection |->
     \A i \in DOMAIN r.rots : \A p \in 1..(r.sig[1] * r.sig[2]) :
       \E d \in Dirs(i, p) :
         \/ S!AbsV(d[3]) <= S!MaxAbs(d) \div 50     \* the hemispheres differ there
         \/ Close(r.values[i][p], M!Intensity(F(d), Unit(d)), r.tol)
  ]

\* Points on the sphere with their intensities, x, y, z scaled by 10^4
SphereClauses(r) ==
  [
   PointsOnSphere |->
     \A k \in DOMAIN r.points :
       LET p == r.points[k]
           up == p[3] > 0
           \* An image of one hemisphere stands for the opposite directions too
           swap == (r.hemisphere = "upper" /\ ~up) \/ (r.hemisphere = "lower" /\ up)
           v == IF swap THEN <<-p[1], -p[2], -p[3]>> ELSE <<p[1], p[2], p[3]>>
           g == IF v[3] > 0 THEN r.upper ELSE r.lower
       IN  Abs(p[3]) <= 200 \/ Close(p[4], M!Intensity(g, v), r.tol),
   BothHalves |-> {r.points[k][3] > 0 : k \in DOMAIN r.points} = BOOLEAN
  ]

AgainClauses(r) ==
  [
   SameValues |-> r.same, Warned |-> r.warned, NothingShared |-> r.unshared,
   LazyRefused |-> r.refused
  ]

TClauses(s, r) ==
  CASE r.op = "convert" -> ConvertClauses(r)
    [] r.op = "loop" -> LoopClauses(r)
    [] r.op = "sphere" -> SphereClauses(r)
    [] r.op = "again" -> AgainClauses(r)
=============================================================================
