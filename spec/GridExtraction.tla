--------------------------- MODULE GridExtraction ---------------------------
(***************************************************************************)
(* A grid of g equally spaced positions on a map axis of n points.         *)
(***************************************************************************)
EXTENDS Num

Position(start, step, i) == start + step * i
Extent(step, g) == step * (g - 1) + 1

\* Inside, distinct, and with margins that differ by at most two points
Fits(start, step, n, g) ==
  /\ step >= 1 /\ start >= 0 /\ Position(start, step, g - 1) < n
Centered(start, step, n, g) ==
  LET after == n - 1 - Position(start, step, g - 1)
  IN  Abs(start - after) <= 2

------------------------------------------------------------------------------
(* Visiting the positions of the grid one after another.                    *)
CONSTANTS MaxN
VARIABLES n, g, start, step, taken
vars == <<n, g, start, step, taken>>
Init ==
  /\ n \in 1..MaxN /\ g \in 1..n
  /\ start \in Range0(n) /\ step \in 1..MaxOf(1, n - 1)
  /\ Fits(start, step, n, g) /\ Centered(start, step, n, g)
  /\ taken = <<>>
Next ==
  /\ Len(taken) < g
  /\ taken' = Append(taken, Position(start, step, Len(taken)))
  /\ UNCHANGED <<n, g, start, step>>
Spec == Init /\ [][Next]_vars

InMap == \A i \in DOMAIN taken : taken[i] \in Range0(n)
Distinct == \A i, j \in DOMAIN taken : i < j => taken[i] < taken[j]
\* A grid with a spacing of at least half the even division is always possible
Possible == \A m \in {n} : \E a \in Range0(m), k \in 1..MaxOf(1, m - 1) :
              Fits(a, k, m, g) /\ Centered(a, k, m, g) /\ (2 * k * (g + 1) >= m \/ g = 1)
==============================================================================
