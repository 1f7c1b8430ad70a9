----------------------------- MODULE TraceMerge -----------------------------
EXTENDS TraceBase, Num
M == INSTANCE Merge WITH MaxK <- 1, MaxM <- 1, MaxS <- 1, kind <- <<>>, win <- <<>>,
       k <- 1, list <- <<>>, pid <- <<>>
TInit == <<>>
TStep(s, r) == s

W(r, p) == M!Winners(r.sc, r.ind, p, r.nb, r.sign)

\* Merged ids of matches, where a match is known by its score being the only
\* one of that value in the point
Known(r) ==
  {<<kk, p, n>> \in (1..Len(r.sc)) \X (1..r.m) \X (1..r.n) :
     /\ Len(r.sc[kk][p]) > 0
     /\ LET f == M!Flat(r.sc, p)
        IN  Cardinality({i \in 1..Len(f) : f[i] = r.sc[kk][p][n]}) = 1}
Pairs(r) ==
  {LET f == M!Sorted(M!Flat(r.sc, t[2]), r.sign)
       pos == CHOOSE i \in 1..Len(f) : f[i] = r.sc[t[1]][t[2]][t[3]]
   IN  <<<<t[1], r.sim[t[1]][t[2]][t[3]]>>, r.out_msim[t[2]][pos]>> : t \in Known(r)}

TClauses(s, r) ==
  LET pts == 1..r.m
      won(p) == r.out_map[p] + 1      \* map whose rotations the point has
      base == [
        SameSize |-> Len(r.out_pid) = r.m /\ Len(r.out_sc) = r.m,
        NotIndexedIffNoneDid |->
          \A p \in pts : (r.out_pid[p] = -1) = (M!Candidates(r.sc, r.ind, p) = {}),
        BestMapWins |->
          \A p \in pts : M!Candidates(r.sc, r.ind, p) # {} => won(p) \in W(r, p),
        PhaseOfWinner |->
          \A p \in pts : M!Candidates(r.sc, r.ind, p) # {} =>
             r.out_kind[p] = r.kind[won(p)],
        OwnRotations |->
          \A p \in pts : M!Candidates(r.sc, r.ind, p) # {} =>
             /\ won(p) \in 1..Len(r.sc)
             /\ r.out_rot[p] = [n \in 1..r.n |-> <<won(p) - 1, p - 1, n - 1>>],
        OwnScores |->
          \A p \in pts : M!Candidates(r.sc, r.ind, p) # {} =>
             /\ won(p) \in 1..Len(r.sc)
             /\ r.out_sc[p] = r.sc[won(p)][p],
        MergedScoresSortedUnion |->
          \A p \in pts :
             LET f == M!Sorted(M!Flat(r.sc, p), r.sign)
             IN  SubSeq(r.out_msc[p], 1, Len(f)) = f,
        MapPlacement |-> r.x = r.want_x /\ r.y = r.want_y]
      simc == IF ~ r.has_sim THEN <<>> ELSE [
        OwnIndices |->
          \A p \in pts : M!Candidates(r.sc, r.ind, p) # {} =>
             /\ won(p) \in 1..Len(r.sc)
             /\ r.out_sim[p] = r.sim[won(p)][p],
        MergedIndicesUnique |->
          LET pr == Pairs(r)
          IN  \A a \in pr, b \in pr : (a[1] = b[1]) = (a[2] = b[2])]
  IN  base @@ simc
=============================================================================
