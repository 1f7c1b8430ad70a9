----------------------------- MODULE Neighbours -----------------------------
(***************************************************************************)
(* Averaging of every pattern in a map with its neighbours in a window.    *)
(*                                                                         *)
(* A map is a sequence (row-major) of patterns and a pattern a sequence of *)
(* pixels.  The window has integer weights W[i][j] with the origin at      *)
(* element (wy \div 2, wx \div 2) counting from 0.  Points outside the map *)
(* do not contribute.                                                      *)
(***************************************************************************)
EXTENDS Num

Origin(n) == n \div 2

\* <<row, column, weight>> of the window elements of non-zero weight that
\* fall inside the ny x nx map when the window is placed on (y, x)
Support(ny, nx, W, y, x) ==
  LET wy == Len(W)
      wx == Len(W[1])
  IN  {<<y + i - Origin(wy), x + j - Origin(wx), W[i + 1][j + 1]>> :
         i \in {a \in Range0(wy) : y + a - Origin(wy) \in Range0(ny)},
         j \in {a \in Range0(wx) : x + a - Origin(wx) \in Range0(nx)}}

\* Weighted sums over the window: the average up to the common factor
\* 1 / (sum of weights), which is positive
Sums(P, ny, nx, W, y, x) ==
  LET sup == SetToSeq(Support(ny, nx, W, y, x))
      npx == Len(P[1])
  IN  [k \in 1..npx |->
         SumSeq([n \in 1..Len(sup) |->
                   sup[n][3] * P[sup[n][1] * nx + sup[n][2] + 1][k]])]

\* The averaged pattern is stretched to [omin, omax]; values agree within
\* tol intensity steps.  A flat average has no contrast to stretch.
Stretched(out, a, omin, omax, tol) ==
  LET lo == MinSeq(a)
      hi == MaxSeq(a)
  IN  hi > lo =>
        \A k \in 1..Len(a) :
           Abs((out[k] - omin) * (hi - lo) - (a[k] - lo) * (omax - omin))
              <= tol * (hi - lo)

------------------------------------------------------------------------------
(* Chunked evaluation: the map axis of length n is cut into chunks, every   *)
(* chunk is given a halo, and the chunks are processed in any order.        *)

CONSTANTS MaxN, MaxW
VARIABLES n, w, chunks, todo, contrib
vars == <<n, w, chunks, todo, contrib>>

RECURSIVE Compositions(_)
Compositions(k) ==
  IF k = 0 THEN {<<>>}
  ELSE UNION {{<<a>> \o c : c \in Compositions(k - a)} : a \in 1..k}

Start(c, i) == SumSeq(SubSeq(c, 1, i - 1))

\* Halo that the implementation asks for
Depth(ww, c, nn) == IF c[1] < nn THEN (ww \div 2) + 1 ELSE 1

Init ==
  /\ n \in 1..MaxN
  /\ w \in 2..MaxW
  /\ chunks \in Compositions(n)
  /\ todo = 1..Len(chunks)
  /\ contrib = [i \in Range0(n) |-> {}]

Process(i) ==
  /\ i \in todo
  /\ todo' = todo \ {i}
  /\ LET lo == Start(chunks, i)
         hi == lo + chunks[i]
         d  == Depth(w, chunks, n)
         seen == {p \in Range0(n) : p >= lo - d /\ p < hi + d}
     IN  contrib' = [p \in Range0(n) |->
           IF p >= lo /\ p < hi
           THEN {s \in seen : \E a \in Range0(w) : s = p + a - Origin(w)}
           ELSE contrib[p]]
  /\ UNCHANGED <<n, w, chunks>>

Next == \E i \in 1..Len(chunks) : Process(i)
Spec == Init /\ [][Next]_vars

\* When all chunks are done, every point got exactly the neighbours that the
\* whole map has
ChunkIndependent ==
  todo = {} =>
    \A p \in Range0(n) :
       contrib[p] = {s \in Range0(n) : \E a \in Range0(w) : s = p + a - Origin(w)}

\* Points of chunks that are not processed have nothing, points of processed
\* chunks do not change again
Untouched ==
  \A i \in todo : \A p \in Range0(n) :
     (p >= Start(chunks, i) /\ p < Start(chunks, i) + chunks[i]) => contrib[p] = {}
=============================================================================
