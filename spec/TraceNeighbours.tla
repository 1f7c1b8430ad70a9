--------------------------- MODULE TraceNeighbours ---------------------------
EXTENDS TraceBase, Num
N == INSTANCE Neighbours WITH MaxN <- 1, MaxW <- 1, n <- 0, w <- 0,
       chunks <- <<>>, todo <- {}, contrib <- <<>>

TInit == <<>>
TStep(s, r) == s

Averaged(r) ==
  /\ Len(r.out) = r.ny * r.nx
  /\ \A y \in Range0(r.ny), x \in Range0(r.nx) :
       LET o == r.out[y * r.nx + x + 1]
       IN  /\ Len(o) = Len(r.P[1])
           /\ N!Stretched(o, N!Sums(r.P, r.ny, r.nx, r.W, y, x),
                          r.omin, r.omax, r.tol)

TClauses(s, r) ==
  CASE r.op = "average" ->
         [WindowWeightedMean |-> Averaged(r),
          DtypeKept |-> r.dtype_out = r.dtype,
          ShapeKept |-> r.shape_out = r.shape,
          LazyAsAsked |-> r.lazy = r.want_lazy,
          Returned |-> r.returned = (~ r.inplace)]
    [] r.op = "identity" ->
         [OneElementWindowIsIdentity |-> r.out = r.P,
          Returned |-> r.returned = (~ r.inplace)]
=============================================================================
