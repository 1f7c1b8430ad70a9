-------------------------- MODULE TraceRefinement --------------------------
EXTENDS TraceBase, Num
R == INSTANCE Refinement WITH MaxN <- 1, MaxC <- 1, pts <- <<>>, chunk <- 1, nc <- 1,
                              todo <- {}, out <- <<>>
TInit == <<>>
TStep(s, r) == s



(***************************************************************************)
(* r.pts: the points; r.alone[k][c]: what candidate c of the k-th point to *)
(* refine gives when optimized alone: [score, evals, x]; r.start[k][c] the *)
(* start; r.startncc the similarity there; r.ncc[k] the similarity of the  *)
(* point's pattern to the pattern simulated with the returned result.      *)
(***************************************************************************)
Best(r, k) == R!BestOf([c \in DOMAIN r.alone[k] |-> r.alone[k][c].score], 2)
RowIs(r, row, k) ==
  \E c \in Best(r, k) :
    /\ Close(row.score, r.alone[k][c + 1].score, r.tol)
    /\ row.evals = r.alone[k][c + 1].evals
    /\ SeqClose(row.x, r.alone[k][c + 1].x, r.tol)
    /\ (r.ps => row.ps = c)

PcShapeOf(r) == IF r.nav = <<>> THEN <<1>>
                ELSE R!PcShape(r.pts, Len(r.nav), r.nav[Len(r.nav)])

TClauses(s, r) ==
  LET g == R!Gather(r.pts)
      n == Len(g)
  IN
  [
   RowPerPoint |-> Len(r.rows) = n,
   OwnResult |-> \A k \in 1..n : RowIs(r, r.rows[k], k),
   ScoreOfResult |->
     \A k \in 1..n : Close(r.rows[k].score, r.ncc[k], r.ncctol),
   NotWorseThanStart |->
     r.fromstart => \A k \in 1..n : \A c \in DOMAIN r.startncc[k] :
       r.rows[k].score >= r.startncc[k][c] - r.ncctol,
   InTrustRegion |->
     r.bounded => \A k \in 1..n :
       \E c \in DOMAIN r.start[k] :
         /\ (r.ps => c = r.rows[k].ps + 1)
         /\ \A j \in DOMAIN r.start[k][c] :
              Abs(r.rows[k].x[j] - r.start[k][c][j]) <= r.trust[j] + 2,
   FirstStepAsGiven |->
     r.firststep # <<>> => \A k \in 1..n :
       \A j \in DOMAIN r.start[k][1] :
            LET d == Abs(r.rows[k].x[j] - r.start[k][1][j])
            IN  d <= 2 \/ Close(d, r.firststep[j], 3),
   \* The map that is returned
   MapCoordinates |->
     r.hasmap =>
       LET K == {i \in DOMAIN r.pts : R!Kept(r.pts[i])}
           nx == IF r.nav = <<>> THEN 1 ELSE r.nav[Len(r.nav)]
           kept == SetToSortSeq(K, <)
           c0 == Min({R!ColOf(i, nx) : i \in K})
           r0 == Min({R!RowOf(i, nx) : i \in K})
           dx == IF r.nav = <<>> THEN 0 ELSE r.steps[Len(r.steps)]
           dy == IF Len(r.nav) = 2 THEN r.steps[1] ELSE 0
       IN  /\ r.map.unit
           /\ r.map.x = [k \in DOMAIN kept |-> (R!ColOf(kept[k], nx) - c0) * dx]
           /\ r.map.y = [k \in DOMAIN kept |-> (R!RowOf(kept[k], nx) - r0) * dy],
   MapPointsKept |->
     r.hasmap => \A i \in DOMAIN r.pts : (r.map.indata[i] = 1) = R!Kept(r.pts[i]),
   MapPhases |->
     r.hasmap => /\ \A i \in DOMAIN r.pts : R!Kept(r.pts[i]) =>
                      r.map.phase[i] = (IF r.pts[i].indexed THEN r.pid ELSE -1)
                 /\ r.map.phasename,
   MapRowsAtPoints |->
     r.hasmap => \A k \in 1..n :
       /\ Close(r.map.score[g[k]], r.rows[k].score, r.tol)
       /\ r.map.evals[g[k]] = r.rows[k].evals
       /\ r.map.rot[k] <= r.tol          \* angle between the rotations
       /\ (r.ps => r.map.psi[g[k]] = r.rows[k].ps),
   MapPropertiesOnly |-> r.hasmap => r.map.hasps = r.ps,
   \* The detector that is returned
   DetectorRows |->
     r.hasdet => /\ r.det.shape = PcShapeOf(r)
                 /\ \A k \in 1..n : SeqClose(r.det.pc[k], r.rows[k].pc, r.tol)
                 /\ r.det.rest,
   ScoresLikePcs |->
     r.hasscores => /\ r.scores.shape = PcShapeOf(r)
                    /\ \A k \in 1..n : Close(r.scores.v[k], r.rows[k].score, r.tol)
                    /\ \A k \in 1..n : r.scores.evals[k] = r.rows[k].evals]
===========================================================================
