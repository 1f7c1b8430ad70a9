----------------------------- MODULE Intensity -----------------------------
(***************************************************************************)
(* Intensities of patterns: linear stretching between ranges, removal of a *)
(* background, blurring and binning, in exact integer arithmetic.          *)
(* A pattern is a sequence of pixels in row order.                         *)
(***************************************************************************)
EXTENDS Num

Clip(x, lo, hi) == MaxOf(lo, MinOf(hi, x))

\* y is the linear image of x when lo..hi is mapped to a..b and x is clipped,
\* with tolerances ty in y and tx in x
IsLinear(y, x, lo, hi, a, b, ty, tx) ==
  LET d == hi - lo
  IN  Abs((y - a) * d - (Clip(x, lo, hi) - lo) * (b - a)) <= ty * d + tx * (b - a)

StretchOK(ys, xs, lo, hi, a, b, ty, tx) ==
  /\ Len(ys) = Len(xs)
  /\ \A i \in 1..Len(xs) : IsLinear(ys[i], xs[i], lo, hi, a, b, ty, tx)

\* Linear stretching cut to integers
Stretch(p, m) ==
  LET lo == MinSeq(p)  hi == MaxSeq(p)
  IN  IF hi = lo THEN [i \in 1..Len(p) |-> 0]
      ELSE [i \in 1..Len(p) |-> ((p[i] - lo) * m) \div (hi - lo)]

OrderKept(xs, ys) == \A i \in 1..Len(xs) : \A j \in 1..Len(xs) :
                        xs[i] <= xs[j] => ys[i] <= ys[j]

\* The pct-th percentile (linear interpolation) in units of 1 / 100
Percentile100(p, pct) ==
  LET s == SortSeq(p, <)
      pos == (Len(s) - 1) * pct
      i == pos \div 100
      f == pos - 100 * i
  IN  IF i + 2 > Len(s) THEN s[i + 1] * 100
      ELSE s[i + 1] * (100 - f) + s[i + 2] * f

\* Pattern minus background, times d
\*   scaled: the background is first stretched to the pattern's range
Subtracted(p, bg, scaled) ==
  LET bl == MinSeq(bg)  d == MaxSeq(bg) - bl
      pl == MinSeq(p)   pr == MaxSeq(p) - pl
  IN  IF scaled THEN [i \in 1..Len(p) |-> d * (p[i] - pl) - (bg[i] - bl) * pr]
      ELSE [i \in 1..Len(p) |-> p[i] - bg[i]]

\* Pattern divided by background, times k
Divided(p, bg, scaled, k) ==
  LET bl == MinSeq(bg)  d == MaxSeq(bg) - bl
      pl == MinSeq(p)   pr == MaxSeq(p) - pl
  IN  IF scaled
      THEN [i \in 1..Len(p) |-> RoundDiv(p[i] * d * k, d * pl + (bg[i] - bl) * pr)]
      ELSE [i \in 1..Len(p) |-> RoundDiv(p[i] * k, bg[i])]

\* Position at i + o of a line of n pixels extended beyond its ends
Extended(mode, i, n) ==
  CASE mode = "nearest" -> Clip(i, 0, n - 1)
    [] mode = "reflect" ->
         LET m == i - (2 * n) * (i \div (2 * n)) IN IF m < n THEN m ELSE 2 * n - 1 - m

\* Blurring with a separable kernel w (sum W) whose first weight is at offset o,
\* in units of 1 / 100
Blur100(p, sy, sx, w, W, o, mode) ==
  LET K == 1..Len(w)
      line(r, c) == SumSeq([k \in K |-> w[k] * p[r * sx + Extended(mode, c + o + k - 1, sx) + 1]])
      one == [i \in 1..(sy * sx) |-> RoundDiv(line((i - 1) \div sx, (i - 1) % sx), W \div 100)]
      col(r, c) == SumSeq([k \in K |-> w[k] * one[Extended(mode, r + o + k - 1, sy) * sx + c + 1]])
  IN  [i \in 1..(sy * sx) |-> RoundDiv(col((i - 1) \div sx, (i - 1) % sx), W)]

\* Sums of f by f blocks of a pattern with sx columns
Binned(p, sy, sx, f) ==
  LET nx == sx \div f
      blk(i) == LET r == (i - 1) \div nx  c == (i - 1) % nx
                IN  SumSeq([k \in 1..(f * f) |->
                       p[(r * f + (k - 1) \div f) * sx + c * f + ((k - 1) % f) + 1]])
  IN  [i \in 1..((sy \div f) * nx) |-> blk(i)]

------------------------------------------------------------------------------
(* A pattern of four pixels (two by two) that is processed step by step.     *)
CONSTANTS MaxV, MaxOut
VARIABLES p0, p, last
vars == <<p0, p, last>>
HasContrast(x) == MaxSeq(x) > MinSeq(x)
Init == /\ p0 \in {f \in [1..4 -> 0..MaxV] : HasContrast(f)} /\ p = p0 /\ last = "none"
Rescale == last # "rescale" /\ p' = Stretch(p, MaxOut) /\ last' = "rescale"
\* A gain and an offset applied by someone else, within the range
Gain == last = "none" /\ \E g \in 1..2 : \E o \in 0..1 :
          p' = [i \in 1..4 |-> g * p[i] + o] /\ last' = "gain"
Equal == last = "rescale" /\ p' = Stretch(p, MaxOut) /\ last' = "again"
Next == (Rescale \/ Gain \/ Equal) /\ UNCHANGED p0
Spec == Init /\ [][Next]_vars

TypeOK == p \in [1..4 -> Nat]
Order == OrderKept(p0, p)
FillsRange == last \in {"rescale", "again"} => MinSeq(p) = 0 /\ MaxSeq(p) = MaxOut
\* Gain and offset do not matter once rescaled, and rescaling twice is as once
GainOffsetFree == last \in {"rescale", "again"} => p = Stretch(p0, MaxOut)
IsTheLinearImage == last = "rescale" =>
   StretchOK(p, p0, MinSeq(p0), MaxSeq(p0), 0, MaxOut, 1, 0)
BinSum == Binned(p, 2, 2, 2) = <<SumSeq(p)>> /\ Binned(p, 2, 2, 1) = p
\* Subtracting a constant background only moves the pattern
ConstantBackground == Stretch(Subtracted(p, <<1, 1, 1, 1>>, FALSE), MaxOut) = Stretch(p, MaxOut)
OwnBackground == HasContrast(p) => \A i \in 1..4 : Subtracted(p, p, TRUE)[i] = 0
BlurKeepsSum ==
  LET b == Blur100(p, 2, 2, <<25, 50, 25>>, 100, -1, "reflect")
  IN  Abs(SumSeq(b) - 100 * SumSeq(p)) <= 4
=============================================================================
