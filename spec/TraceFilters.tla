---------------------------- MODULE TraceFilters ----------------------------
EXTENDS TraceBase, Num
F == INSTANCE Filters WITH MaxImage <- 0, MaxWindow <- 0, MaxExtra <- 0, Sides <- {}, Ops <- 0,
                           st <- [step |-> "none"]
I == INSTANCE Intensity WITH MaxV <- 1, MaxOut <- 1, p0 <- <<>>, p <- <<>>, last <- ""
TInit == [name |-> "", circular |-> FALSE, shape |-> <<>>, values |-> <<>>]

\* Histories of windows: the state is the window after the operations so far
New(r) == [name |-> r.name0, circular |-> FALSE, shape |-> r.shape0, values |-> r.values0]
Stepped(s, r) == IF r.do = "new" THEN New(r) ELSE F!WStep(s, r.do)
TStep(s, r) == IF r.op = "history" THEN Stepped(s, r) ELSE s
HistoryClauses(s, r) ==
  LET w == Stepped(s, r) IN [
   Name |-> r.name = w.name,
   Circular |-> r.circular = w.circular,
   Shape |-> r.shape = w.shape,
   Values |-> r.values = w.values,
   Origin |-> r.origin = [d \in DOMAIN w.shape |-> F!OriginOf(w.shape[d])],
   OthersSame |-> r.others
  ]

\* Windows by name: r.values in 1 / 10000
WindowClauses(r) ==
  LET n == ProdSeq(r.shape)
      circ == r.kind = "circular" /\ Len(r.shape) = 2
  IN [
   Shape |-> r.got = r.shape /\ Len(r.values) = n,
   Values |-> Len(r.values) = n => \A k \in 1..n :
     CASE r.kind \in {"lowpass", "highpass"} -> F!PassOK(r.values[k], F!Dist2(k, r.shape), r.cutoff, r.width, r.kind)
       [] r.kind = "circular" -> r.values[k] = IF circ /\ F!InCorner(k, r.shape) THEN 0 ELSE 10000
       [] OTHER -> Close(r.values[k], F!Outer(r.kind, k, r.shape, r.std), 3),
   Name |-> r.kind # "circular" \/ Len(r.shape) = 2 => r.name = r.kind,
   Circular |-> r.circular = circ,
   Origin |-> r.origin = [d \in DOMAIN r.shape |-> F!OriginOf(r.shape[d])],
   Neighbours |-> r.neighbours = [d \in DOMAIN r.shape |-> r.shape[d] - F!OriginOf(r.shape[d]) - 1],
   \* Squared distances
   Distances |-> r.dist2 = [k \in 1..n |-> F!Dist2(k, r.shape)],
   Valid |-> r.valid,
   Compatible |-> r.compatible = (Len(r.shape) <= Len(r.with) /\
                    \A d \in DOMAIN r.shape : d <= Len(r.with) => r.shape[d] <= r.with[d])
  ]

Frame(r) ==
  [DataType |-> r.dtype = r.want_dtype,
   Shape |-> r.shape = r.want_shape,
   Laziness |-> r.lazy = r.want_lazy,
   AxesAndMetadataKept |-> r.kept,
   Untouched |-> r.same]
Filtered(r, k) == IF r.domain = "spatial" THEN F!Correlation(r.x[k], r.sig, r.w, r.wshape)
                  ELSE F!Convolution(r.x[k], r.sig, r.w)
SignalClauses(r) ==
  [Patterns |-> Len(r.y) = Len(r.x) /\ \A k \in DOMAIN r.x :
     LET v == Filtered(r, k)
     IN  MaxSeq(v) > MinSeq(v) =>
           I!StretchOK(r.y[k], v, MinSeq(v), MaxSeq(v), r.a, r.b, r.tol, r.tolx)] @@ Frame(r)
\* One pattern, not stretched; r.y in 1 / 100, r.apodization one per pixel
PatternClauses(r) ==
  LET p == [k \in DOMAIN r.x |-> r.x[k] * (IF r.apo = <<>> THEN 1 ELSE r.apo[k])]
      v == Filtered([r EXCEPT !.x = <<p>>], 1)
  IN  [Pattern |-> Len(r.y) = Len(v) /\ \A k \in DOMAIN v : Close(r.y[k], 100 * v[k], r.tol),
       Untouched |-> r.same]
\* Fourier transform of sides 1, 2, 4: r.re, r.im, r.abs2 rounded
FourierClauses(r) ==
  LET ny == r.sig[1]
      nx == r.sig[2]
      cols == IF r.half THEN nx \div 2 + 1 ELSE nx
      p == [k \in DOMAIN r.x |-> r.x[k] * (IF r.apo = <<>> THEN 1 ELSE r.apo[k])]
      At(u, v) == IF r.shift THEN <<((u + ny \div 2) % ny), ((v + cols \div 2) % cols)>> ELSE <<u, v>>
      K(u, v) == At(u, v)[1] * cols + At(u, v)[2] + 1
  IN  [Transform |-> Len(r.re) = ny * cols /\ \A u \in 0..(ny - 1) : \A v \in 0..(cols - 1) :
         LET f == F!Fourier(p, r.sig, u, v)
         IN  /\ r.re[K(u, v)] = f[1] /\ r.im[K(u, v)] = f[2]
             /\ r.abs2[K(u, v)] = f[1] * f[1] + f[2] * f[2],
       Untouched |-> r.same]
\* Back again, for any shape; r.y in 1 / 100
BackClauses(r) == [Back |-> SeqClose(r.y, [k \in DOMAIN r.x |-> 100 * r.x[k]], 1),
                   Untouched |-> r.same]
RefusedClauses(r) == [Refused |-> r.error = r.want]

TClauses(s, r) ==
  CASE r.op = "history" -> HistoryClauses(s, r)
    [] r.op = "window" -> WindowClauses(r)
    [] r.op = "signal" -> SignalClauses(r)
    [] r.op = "pattern" -> PatternClauses(r)
    [] r.op = "fourier" -> FourierClauses(r)
    [] r.op = "back" -> BackClauses(r)
    [] r.op = "refused" -> RefusedClauses(r)
=============================================================================
