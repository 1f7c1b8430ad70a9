------------------------------ MODULE PCPlane ------------------------------
(***************************************************************************)
(* Projection centers (PCs) over a map.  A PC has three coordinates; on a  *)
(* flat sample they are an affine function of the map position <<r, c>>:   *)
(*   Plane(b, dr, dc)(r, c) = b + r dr + c dc.                             *)
(* PCs are measured in some positions; some measurements are outliers.     *)
(* Model: measurements of one coordinate are added one at a time, in any   *)
(* order; once three positions that are not on a line are measured, no     *)
(* other plane has the same values there, wherever the outliers are.       *)
(***************************************************************************)
EXTENDS Num

CONSTANTS Side, Slopes, MaxPoints
VARIABLES plane, meas
vars == <<plane, meas>>

Cells == (0..(Side - 1)) \X (0..(Side - 1))
Planes == [b : {0, 1}, dr : Slopes, dc : Slopes]
At(p, cell) == p.b + cell[1] * p.dr + cell[2] * p.dc

OnLine(p, q, s) == (q[1] - p[1]) * (s[2] - p[2]) = (q[2] - p[2]) * (s[1] - p[1])
Positions(m) == {m[i].cell : i \in {j \in DOMAIN m : ~m[j].outlier}}
Spans(cells) == \E p, q, s \in cells : ~OnLine(p, q, s)
Agree(p, m) == \A i \in DOMAIN m : ~m[i].outlier => At(p, m[i].cell) = m[i].pc

Init == plane \in Planes /\ meas = <<>>
Measure == \E cell \in Cells \ {meas[i].cell : i \in DOMAIN meas} : \E o \in BOOLEAN :
  meas' = Append(meas, [cell |-> cell, outlier |-> o, pc |-> At(plane, cell) + (IF o THEN 7 ELSE 0)])
Next == Len(meas) < MaxPoints /\ Measure /\ UNCHANGED plane
Spec == Init /\ [][Next]_vars

Determined == Spans(Positions(meas)) =>
  \A p \in Planes : Agree(p, meas) => \A cell \in Cells : At(p, cell) = At(plane, cell)
\* The mean of measurements lies on the plane in the mean position
RECURSIVE SumOver(_, _)
SumOver(f(_), m) == IF m = <<>> THEN 0
                    ELSE (IF m[1].outlier THEN 0 ELSE f(m[1])) + SumOver(f, Tail(m))
MeanOnPlane ==
  LET N(x) == 1 R(x) == x.cell[1] C(x) == x.cell[2] P(x) == x.pc
  IN  SumOver(P, meas) = plane.b * SumOver(N, meas) + plane.dr * SumOver(R, meas)
                         + plane.dc * SumOver(C, meas)

--------------------------------------------------------------------------
(***************************************************************************)
(* Extrapolation from the mean PC in the mean position.  Units: PCs in     *)
(* 1 / 10^5; the angle alpha = 90 - sample tilt + tilt has cosine ca / 5   *)
(* and sine sa / 5.  From one position to another the sample moves by      *)
(* (rows) * dy and (columns) * dx, of the detector's width ncols * px and  *)
(* height nrows * px.                                                      *)
(***************************************************************************)
\* n times the change of PC from n * position to position <<r, c>>
Change(n, from, r, c, g) ==
  LET drow == from[1] - n * r
      dcol == from[2] - n * c
  IN <<(100000 * dcol * g.dx) \div (g.px * g.ncols),
       (20000 * drow * g.dy * g.ca) \div (g.px * g.nrows),
       -((20000 * drow * g.dy * g.sa) \div (g.px * g.nrows))>>
\* Mean positions times n: the exact one, and those rounded to whole rows
\* and columns
Near(s, n) == {s} \cup {n * k : k \in {j \in ((s \div n) - 1)..((s \div n) + 1) :
                                       2 * Abs(n * j - s) <= n}}
=============================================================================
