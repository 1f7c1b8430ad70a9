----------------------------- MODULE Similarity -----------------------------
(***************************************************************************)
(* Similarity of two patterns x and y over the pixels kept by the mask:    *)
(*   dot:  sum(xy) / sqrt(sum(xx) sum(yy))                                 *)
(*   ncc:  the same of the patterns less their means; multiplied by the    *)
(*         squared number of pixels n, that is                             *)
(*         (n sum(xy) - sum(x) sum(y)) / sqrt(Var(x) Var(y)).              *)
(* So it is Num / sqrt(Den(x) Den(y)) of integers.                         *)
(*                                                                         *)
(* Image quality of a pattern is 1 - inertia / largest inertia where       *)
(* inertia is the mean of squared frequency (weights W), weighted by the   *)
(* magnitudes M of the Fourier transform.  A pattern that is even about    *)
(* its origin in both directions, with side lengths 1, 2, 3, 4 and 6, has  *)
(* a transform of integers.                                                *)
(***************************************************************************)
EXTENDS Num

CONSTANTS Len0, Vals, Gains, Offsets
VARIABLES x, y, mask, step
vars == <<x, y, mask, step>>

RECURSIVE Keep(_, _)
Keep(p, m) == IF p = <<>> THEN <<>>
              ELSE (IF m[1] THEN <<>> ELSE <<p[1]>>) \o Keep(Tail(p), Tail(m))
Dot(a, b) == SumSeq([i \in DOMAIN a |-> a[i] * b[i]])
Num2(metric, a, b) == IF metric = "ndp" THEN Dot(a, b)
                      ELSE Len(a) * Dot(a, b) - SumSeq(a) * SumSeq(b)
Den(metric, a) == Num2(metric, a, a)

\* The similarity of c and d equals the one of a and b
SameScore(metric, a, b, c, d) ==
  LET n1 == Num2(metric, a, b) n2 == Num2(metric, c, d)
      d1 == Den(metric, a) * Den(metric, b) d2 == Den(metric, c) * Den(metric, d)
  IN  /\ (n1 > 0) = (n2 > 0) /\ (n1 < 0) = (n2 < 0)
      /\ n1 * n1 * d2 = n2 * n2 * d1

Init == /\ x \in [1..Len0 -> Vals] /\ y \in [1..Len0 -> Vals]
        /\ mask \in {m \in [1..Len0 -> BOOLEAN] : Cardinality({i \in 1..Len0 : ~m[i]}) >= 2}
        /\ step = <<"start">>
Gain == \E g \in Gains : x' = [i \in 1..Len0 |-> g * x[i]] /\ step' = <<"gain", x>>
Offset == \E o \in Offsets : x' = [i \in 1..Len0 |-> o + x[i]] /\ step' = <<"offset", x>>
\* Masked pixels get anything
Hidden == \E v \in Vals : /\ x' = [i \in 1..Len0 |-> IF mask[i] THEN v ELSE x[i]]
                          /\ step' = <<"hidden", x>>
Next == /\ step = <<"start">> /\ (Gain \/ Offset \/ Hidden) /\ UNCHANGED <<y, mask>>
Spec == Init /\ [][Next]_vars

K(p) == Keep(p, mask)
Defined(m) == Den(m, K(x)) > 0 /\ Den(m, K(y)) > 0
AtMostOne == \A m \in {"ncc", "ndp"} :
  LET n == Num2(m, K(x), K(y)) IN n * n <= Den(m, K(x)) * Den(m, K(y))
SelfIsOne == \A m \in {"ncc", "ndp"} : Num2(m, K(x), K(x)) = Den(m, K(x))
Symmetric == \A m \in {"ncc", "ndp"} : Num2(m, K(x), K(y)) = Num2(m, K(y), K(x))
Unchanged == \A m \in {"ncc", "ndp"} :
  (step[1] # "start" /\ ~(m = "ndp" /\ step[1] = "offset")) =>
    SameScore(m, K(x), K(y), K(step[2]), K(y))
\* The largest similarity is had only by patterns related by gain (and offset)
OnlyRelated == \A m \in {"ncc", "ndp"} :
  (Defined(m) /\ Num2(m, K(x), K(y)) > 0 /\
   Num2(m, K(x), K(y)) * Num2(m, K(x), K(y)) = Den(m, K(x)) * Den(m, K(y))) =>
    \A i, j \in DOMAIN K(x) :
      IF m = "ndp" THEN K(x)[i] * K(y)[j] = K(x)[j] * K(y)[i]
      ELSE \A k \in DOMAIN K(x) :
        (K(x)[i] - K(x)[k]) * (K(y)[j] - K(y)[k]) = (K(x)[j] - K(x)[k]) * (K(y)[i] - K(y)[k])

--------------------------------------------------------------------------
\* 2 cos(2 pi k / n), n = 1, 2, 3, 4, 6
Cos2(n, k) ==
  CASE n = 1 -> 2
    [] n = 2 -> <<2, -2>>[(k % 2) + 1]
    [] n = 3 -> <<2, -1, -1>>[(k % 3) + 1]
    [] n = 4 -> <<2, 0, -2, 0>>[(k % 4) + 1]
    [] n = 6 -> <<2, 1, -1, -2, -1, 1>>[(k % 6) + 1]
\* Four times the transform of pattern p (rows of columns) at row frequency u
\* and column frequency v
Fourier4(p, u, v) ==
  SumSeq([i \in DOMAIN p |-> SumSeq([j \in DOMAIN p[i] |->
    p[i][j] * Cos2(Len(p), u * (i - 1)) * Cos2(Len(p[i]), v * (j - 1))])])
\* Magnitudes, that of zero frequency left out if the mean is
Mags(p, normalized) ==
  [u \in DOMAIN p |-> [v \in DOMAIN p[u] |->
    IF normalized /\ u = 1 /\ v = 1 THEN 0 ELSE Abs(Fourier4(p, u - 1, v - 1)) \div 4]]
Total(m) == SumSeq([i \in DOMAIN m |-> SumSeq(m[i])])
Weighted(m, w) == SumSeq([i \in DOMAIN m |-> SumSeq([j \in DOMAIN m[i] |-> m[i][j] * w[i][j]])])
\* Weight along a side of length n of frequency k = 0..(n - 1)
Side(n, k) == IF k < n \div 2 THEN k + 1 ELSE k - n
Weights(ny, nx) == [i \in 1..ny |-> [j \in 1..nx |->
  Side(ny, i - 1) * Side(ny, i - 1) + Side(nx, j - 1) * Side(nx, j - 1) - 1]]
=============================================================================
