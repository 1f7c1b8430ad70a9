---------------------------- MODULE TraceReaders ----------------------------
EXTENDS TraceBase
R == INSTANCE Readers WITH Shapes <- {}, file <- <<>>, loaded <- "no"
TInit == 0
TStep(s, r) == 0

Names(ax) == [i \in 1..Len(ax) |-> ax[i].name]
Sizes(ax) == [i \in 1..Len(ax) |-> ax[i].size]

MapClauses(r) ==
  LET f == r.f
      grid == R!Grid(f, r.byname)
      ax == R!Axes(f)
      pts == R!Sorted(R!Stored(f))
  IN  [LoadedAsAsked |-> r.is_lazy = r.lazy,
       PatternAtItsPoint |-> r.grid = grid,
       NavigationShape |-> r.shape = Sizes(ax) /\ r.names = Names(ax),
       StepSizes |-> r.scales = R!Steps(f, r.dy, r.dx) \/ (~ R!HasSteps(f) /\ \A i \in 1..Len(r.scales) : r.scales[i] = r.one)]
      @@ (IF r.pcs THEN [ProjectionCenterOfPattern |-> r.pcgrid = grid /\
                           (Len(ax) > 0 => r.pcshape = Sizes(ax))] ELSE <<>>)
      @@ (IF r.has_rots THEN [OrientationOfPattern |-> r.rots = grid] ELSE <<>>)
      @@ (IF r.has_points THEN [PositionOfPattern |-> r.points = pts] ELSE <<>>)
      @@ (IF r.has_xmap THEN [CrystalMapOfMap |-> r.xmap = [i \in 1..R!Length(f) |->
                   <<(i - 1) \div R!MapShape(f)[2], (i - 1) % R!MapShape(f)[2]>>]] ELSE <<>>)

Same(pairs) == \A i \in 1..Len(pairs) : pairs[i][2] = pairs[i][3]

TClauses(s, r) ==
  CASE r.op = "map" ->
         IF r.raised # R!Refused(r.f) THEN [RaisesIffRefused |-> FALSE]
         ELSE [RaisesIffRefused |-> TRUE]
              @@ (IF r.raised THEN <<>> ELSE MapClauses(r) @@ [RecordedValues |-> Same(r.meta)])
    [] r.op = "calibration" ->
         [PatternAtItsPoint |-> r.grid = [i \in 1..r.n |-> i],
          PositionOfPattern |-> r.points = r.recorded,
          NavigationShape |-> r.shape = <<r.n>> /\ r.names = <<"x">>,
          RecordedValues |-> Same(r.meta)]
    [] r.op = "master" ->
         [LoadedAsAsked |-> r.is_lazy = r.lazy,
               PatternAtItsPoint |-> r.images = R!Images(r.m),
               Orientation |-> \A i \in 1..Len(r.flipped) : r.flipped[i] = R!Flipped(r.m),
               NavigationShape |-> r.axes = R!MPAxes(r.m),
               RecordedValues |-> Same(r.meta)]
=============================================================================
