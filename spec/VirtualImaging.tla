--------------------------- MODULE VirtualImaging ---------------------------
(***************************************************************************)
(* Virtual images: every map point's pattern summed over detector pixels.  *)
(* One detector axis of s pixels is divided into g tiles; the boundary     *)
(* before tile r is a whole pixel within half a pixel of the ideal r s / g.*)
(***************************************************************************)
EXTENDS Num

\* b is a possible boundary before tile r (from 0) of g on s pixels
Boundary(b, r, s, g) == 2 * Abs(b * g - r * s) <= g

\* Pixels are numbered row by row from 0 on a detector with sx columns
Rect(r0, r1, c0, c1, sx) == {r * sx + c : r \in r0..(r1 - 1), c \in c0..(c1 - 1)}
RowsOf(S, sx) == {p \div sx : p \in S}
ColsOf(S, sx) == {p % sx : p \in S}

\* S is a rectangle that is tile (r, c) of a gy by gx grid
IsTile(S, r, c, sy, sx, gy, gx) ==
  /\ S # {}
  /\ LET r0 == Min(RowsOf(S, sx))
         r1 == Max(RowsOf(S, sx)) + 1
         c0 == Min(ColsOf(S, sx))
         c1 == Max(ColsOf(S, sx)) + 1
     IN  /\ S = Rect(r0, r1, c0, c1, sx)
         /\ Boundary(r0, r, sy, gy) /\ Boundary(r1, r + 1, sy, gy)
         /\ Boundary(c0, c, sx, gx) /\ Boundary(c1, c + 1, sx, gx)

\* Sum of pattern p (a sequence) over pixels S numbered from 0
SumOver(p, S) == FoldSet(LAMBDA i, acc : acc + p[i + 1], 0, S)

\* Joint linear stretch of intensities v in lo..hi (with unit 1 / den) to 0..m,
\* clipped and cut to integers
Stretch(v, lo, hi, m) ==
  IF v <= lo THEN 0 ELSE IF v >= hi THEN m
  ELSE LET a == (v - lo) * 255
           d == hi - lo
           k == m \div 255
       IN  (a \div d) * k + ((a % d) * k) \div d

\* The q-th percentile, in units of 1 / 100, with linear interpolation
Percentile100(sorted, q) ==
  LET pos == (Len(sorted) - 1) * q
      i == pos \div 100
      f == pos % 100
  IN  IF i + 2 > Len(sorted) THEN sorted[i + 1] * 100
      ELSE sorted[i + 1] * (100 - f) + sorted[i + 2] * f

------------------------------------------------------------------------------
(* Laying the tiles of one axis one after another.                          *)
CONSTANTS MaxS
VARIABLES s, g, b
vars == <<s, g, b>>
Init == s \in 1..MaxS /\ g \in 1..s /\ b = <<0>>
Next ==
  /\ Len(b) <= g
  /\ \E x \in 0..s : Boundary(x, Len(b), s, g) /\ b' = Append(b, x)
  /\ UNCHANGED <<s, g>>
Spec == Init /\ [][Next]_vars
Done == Len(b) = g + 1
TypeOK == g <= s /\ Len(b) \in 1..(g + 1)
\* Any such boundaries give tiles that cover every pixel once, none empty,
\* and as close in size as whole pixels allow
Tile(r) == b[r]..(b[r + 1] - 1)
Covers == Done => UNION {Tile(r) : r \in 1..g} = Range0(s)
Disjoint == Done => \A r \in 1..g : \A t \in 1..g : r # t => Tile(r) \cap Tile(t) = {}
FairSize == Done => \A r \in 1..g :
   LET k == b[r + 1] - b[r] IN k >= 1 => (k - 1) * g <= s /\ s <= (k + 1) * g
\* The tiles of a grid have a pixel unless two halves meet in one pixel
NonEmpty == Done => \A r \in 1..g : b[r + 1] >= b[r]
==============================================================================
