------------------------ MODULE NeighbourDotProducts ------------------------
(***************************************************************************)
(* Dot products of every pattern with those at the offsets of a window.    *)
(*                                                                         *)
(* P is a row-major sequence of ny * nx integer patterns, W a 0/1 matrix   *)
(* with its origin at element (wy \div 2, wx \div 2) counting from 0.      *)
(* All arithmetic is integer: with zero mean the dot product of a and b is *)
(*   (N * Sum(a b) - Sum(a) Sum(b)) / N,                                   *)
(* and a normalized one is divided by the square root of the dot products  *)
(* of a and of b with themselves.                                          *)
(***************************************************************************)
EXTENDS Num

Dot(a, b, zm) ==
  LET n == Len(a)
      ab == SumSeq([i \in 1..n |-> a[i] * b[i]])
  IN  IF zm THEN n * ab - SumSeq(a) * SumSeq(b) ELSE ab
\* Factor that Dot has over the true dot product
Factor(a, zm) == IF zm THEN Len(a) ELSE 1

RECURSIVE Newton(_, _)
Newton(v, x) == LET y == (x + v \div x) \div 2 IN IF y >= x THEN x ELSE Newton(v, y)
ISqrt(v) == IF v <= 1 THEN v ELSE Newton(v, v \div 2 + 1)

Inside(ny, nx, y, x) == y \in Range0(ny) /\ x \in Range0(nx)
At(nx, y, x) == y * nx + x + 1

\* Map point seen by window element (i, j), from 0, when placed on (y, x)
Seen(W, y, x, i, j) == <<y + i - (Len(W) \div 2), x + j - (Len(W[1]) \div 2)>>

HasValue(ny, nx, W, y, x, i, j) ==
  LET t == Seen(W, y, x, i, j)
  IN  W[i + 1][j + 1] # 0 /\ Inside(ny, nx, t[1], t[2])
IsSelf(W, i, j) == i = Len(W) \div 2 /\ j = Len(W[1]) \div 2

\* v, in units of 1 / Scale, is the dot product of a and b
NormScale == 10000
\* Square roots are taken of values scaled by the square of this, within the
\* range of TLC's integers
Fine(v) == IF v < 2000 THEN 1000 ELSE 100
DotIs(v, a, b, zm, nm) ==
  IF ~nm
  THEN \* v has unit 1 / Factor
       v = Dot(a, b, zm)
  ELSE LET aa == Dot(a, a, zm)
           bb == Dot(b, b, zm)
           c  == Dot(a, b, zm)
           k  == Fine(aa * bb)
           s  == ISqrt(aa * bb * k * k)
       IN  \* v = NormScale * c / (s / k), with the error of s and of v
           Abs(v * s - c * NormScale * k) <= Abs(v) + 3 * s
\* Normalized dot product in units of 1 / NormScale
NormDot(a, b, zm) ==
  LET aabb == Dot(a, a, zm) * Dot(b, b, zm)
      k == Fine(aabb)
      s == ISqrt(aabb * k * k)
      c == Dot(a, b, zm)
  IN  IF c >= 0 THEN RoundDiv(c * NormScale * k, s) ELSE -RoundDiv(-c * NormScale * k, s)

NeighboursOf(ny, nx, W, y, x) ==
  {Seen(W, y, x, t[1], t[2]) :
     t \in {u \in Range0(Len(W)) \X Range0(Len(W[1])) :
              HasValue(ny, nx, W, y, x, u[1], u[2]) /\ ~IsSelf(W, u[1], u[2])}}

------------------------------------------------------------------------------
(* Chunked evaluation of one map axis: each chunk is processed on its own   *)
(* with a halo of points before and after it.                               *)

CONSTANTS MaxN, MaxW
VARIABLES n, w, chunks, todo, got
vars == <<n, w, chunks, todo, got>>

RECURSIVE Compositions(_)
Compositions(k) ==
  IF k = 0 THEN {<<>>}
  ELSE UNION {{<<a>> \o c : c \in Compositions(k - a)} : a \in 1..k}
Start(c, i) == SumSeq(SubSeq(c, 1, i - 1))

\* Halo asked for
Depth(ww, nn, c) == IF Len(c) = 1 THEN 0 ELSE MinOf(ww \div 2, nn)

Init ==
  /\ n \in 1..MaxN /\ w \in 1..MaxW
  /\ chunks \in Compositions(n)
  /\ todo = 1..Len(chunks)
  /\ got = [p \in Range0(n) |-> {}]
Process(i) ==
  /\ i \in todo
  /\ todo' = todo \ {i}
  /\ LET lo == Start(chunks, i)
         hi == lo + chunks[i]
         d  == Depth(w, n, chunks)
         seen == {p \in Range0(n) : p >= lo - d /\ p < hi + d}
     IN  got' = [p \in Range0(n) |->
           IF p >= lo /\ p < hi
           THEN {a \in Range0(w) : p + a - (w \div 2) \in seen} ELSE got[p]]
  /\ UNCHANGED <<n, w, chunks>>
Next == \E i \in 1..Len(chunks) : Process(i)
Spec == Init /\ [][Next]_vars

\* Every window offset that has a point in the map gets its value
Complete == todo = {} =>
  \A p \in Range0(n) : got[p] = {a \in Range0(w) : p + a - (w \div 2) \in Range0(n)}
\* a sees b at offset o exactly when b sees a at the mirrored offset
Mirrored == todo = {} /\ w % 2 = 1 =>
  \A p \in Range0(n) : \A a \in got[p] :
     LET r == p + a - (w \div 2) IN (w - 1 - a) \in got[r]
==============================================================================
