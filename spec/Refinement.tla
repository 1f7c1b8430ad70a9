----------------------------- MODULE Refinement -----------------------------
(***************************************************************************)
(* Refinement of orientations and projection centers of the points of a    *)
(* crystal map. A point is in the data or not, indexed or not, and masked  *)
(* or not. The patterns of the points to refine are gathered in the order  *)
(* of the map, split into blocks that are optimized in any order, and each *)
(* optimized row is put back in the point it came from.                    *)
(*                                                                         *)
(* A point has one or more start candidates (its own orientation, and the  *)
(* pseudo-symmetric ones); the result of a candidate only depends on the   *)
(* point's pattern and that candidate.                                     *)
(***************************************************************************)
EXTENDS Num

Kept(p) == p.inData /\ ~p.masked
Refined(p) == Kept(p) /\ p.indexed

\* The points to refine in order (indices into the sequence of points)
Gather(pts) == SetToSortSeq({i \in DOMAIN pts : Refined(pts[i])}, <)

\* The candidates (numbered from 0) with a best score up to tol
BestOf(scores, tol) ==
  {i - 1 : i \in {k \in DOMAIN scores : scores[k] >= Max(ToSet(scores)) - tol}}

\* The shape of the projection centers returned: that of the kept points when they
\* make a full rectangle and all are indexed; a sequence otherwise
RowOf(i, nx) == (i - 1) \div nx
ColOf(i, nx) == (i - 1) % nx
PcShape(pts, ndim, nx) ==
  LET K == {i \in DOMAIN pts : Kept(pts[i])}
      R == {RowOf(i, nx) : i \in K}
      C == {ColOf(i, nx) : i \in K}
      nr == Max(R) - Min(R) + 1
      nc == Max(C) - Min(C) + 1
      full == Cardinality(K) = nr * nc /\ \A i \in K : pts[i].indexed
  IN  IF full THEN IF ndim = 1 THEN <<nc>> ELSE <<nr, nc>>
      ELSE <<Cardinality({i \in K : pts[i].indexed})>>

------------------------------------------------------------------------------
(* Blocks of the gathered points are optimized in any order.                *)
CONSTANTS MaxN, MaxC
VARIABLES pts, chunk, nc, todo, out
vars == <<pts, chunk, nc, todo, out>>
Points == [inData : BOOLEAN, masked : BOOLEAN, indexed : BOOLEAN]
NBlocks(n, c) == (n + c - 1) \div c
Init ==
  /\ \E n \in 1..MaxN : pts \in [1..n -> Points]
  /\ pts[1].inData /\ pts[Len(pts)].inData     \* the extent of the map is the signal's
  /\ \E i \in DOMAIN pts : Refined(pts[i])
  /\ chunk \in 1..Len(Gather(pts))
  /\ nc \in 1..MaxC
  /\ todo = 1..NBlocks(Len(Gather(pts)), chunk)
  /\ out = [i \in DOMAIN pts |-> 0]
\* The result of a point is that of its own pattern: here simply its own number
Optimize(b) ==
  LET g == Gather(pts)
      mine == {k \in DOMAIN g : (k - 1) \div chunk = b - 1}
  IN  /\ b \in todo
      /\ out' = [i \in DOMAIN pts |->
                   IF \E k \in mine : g[k] = i THEN i ELSE out[i]]
      /\ todo' = todo \ {b}
      /\ UNCHANGED <<pts, chunk, nc>>
Next == \E b \in todo : Optimize(b)
Spec == Init /\ [][Next]_vars
Owned == todo = {} => \A i \in DOMAIN pts : out[i] = (IF Refined(pts[i]) THEN i ELSE 0)
Untouched == \A i \in DOMAIN pts : out[i] \in {0, i} /\ (~Refined(pts[i]) => out[i] = 0)
ShapeFits ==
  LET sh == PcShape(pts, 1, Len(pts)) IN sh = <<Len(Gather(pts))>>
===========================================================================
