---------------------------- MODULE MovingScreen ----------------------------
(***************************************************************************)
(* Calibration of the projection center (PC) from two patterns with the    *)
(* screen at different distances.  A feature at offset v from the PC at    *)
(* distance d is at offset v e / d at distance e.  The lines between the   *)
(* same feature in both patterns meet in the PC, and lengths in the        *)
(* patterns grow by e / d = 1 + delta / d.                                 *)
(*                                                                         *)
(* Model: features are picked one at a time.  Every two features that are  *)
(* not on a line with the PC give one estimate; all estimates agree.       *)
(***************************************************************************)
EXTENDS Num

CONSTANTS Offsets, Distances, MaxFeatures, PC
VARIABLES d, e, picked
vars == <<d, e, picked>>

\* A feature in the near and the far pattern; offsets in units of 1 / d
Near(v) == <<PC[1] + v[1] * d, PC[2] + v[2] * d>>
Far(v) == <<PC[1] + v[1] * e, PC[2] + v[2] * e>>

\* Intersection of the lines from a to b and from p to q: <<X, Y, D>> with
\* coordinates X / D and Y / D; D = 0 for parallel lines
Meet(a, b, p, q) ==
  LET u == a[1] * b[2] - a[2] * b[1]
      w == p[1] * q[2] - p[2] * q[1]
      D == (a[1] - b[1]) * (p[2] - q[2]) - (a[2] - b[2]) * (p[1] - q[1])
  IN  <<u * (p[1] - q[1]) - (a[1] - b[1]) * w, u * (p[2] - q[2]) - (a[2] - b[2]) * w, D>>
Length2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])

\* Pairs of 1 .. n in order
PairsOf(n) == LET all == {<<i, j>> \in (1..n) \X (1..n) : i < j}
              IN  SetToSortSeq(all, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
\* X / D strictly within 0 .. n
Strictly(X, D, n) == IF D > 0 THEN X > 0 /\ X < n * D ELSE D < 0 /\ X < 0 /\ X > n * D

Init == /\ d \in Distances /\ e \in {x \in Distances : x > d} /\ picked = <<>>
Pick == /\ Len(picked) < MaxFeatures
        /\ \E v \in Offsets : (\A i \in DOMAIN picked : picked[i] # v) /\ picked' = Append(picked, v)
        /\ UNCHANGED <<d, e>>
Next == Pick
Spec == Init /\ [][Next]_vars

OnLine(v, w) == v[1] * w[2] = v[2] * w[1]
Agree == \A i, j \in DOMAIN picked : i < j =>
  LET v == picked[i] w == picked[j]
      M == Meet(Far(v), Near(v), Far(w), Near(w))
  IN  /\ (M[3] = 0) = OnLine(v, w)
      /\ M[1] = PC[1] * M[3] /\ M[2] = PC[2] * M[3]
      /\ Length2(Far(v), Far(w)) * d * d = Length2(Near(v), Near(w)) * e * e
Count == Len(PairsOf(Len(picked))) = (Len(picked) * (Len(picked) - 1)) \div 2
=============================================================================
