------------------------- MODULE TraceMovingScreen -------------------------
EXTENDS TraceBase, Num, BigNat
M == INSTANCE MovingScreen WITH Offsets <- {}, Distances <- {}, MaxFeatures <- 0, PC <- <<0, 0>>,
                                d <- 1, e <- 2, picked <- <<>>
TInit == <<>>
TStep(s, r) == s

\* Points in halves of a pixel.  Estimates: pxy in 1/1000 pixel, pcx and pcy
\* in 1/100000 of the detector, pcz in 1/100000
Meet(r, p) == M!Meet(r.far[p[1]], r.near[p[1]], r.far[p[2]], r.near[p[2]])
Within(r, p) == LET m == Meet(r, p)
                IN  M!Strictly(m[1], m[3], 2 * r.shape[2]) /\ M!Strictly(m[2], m[3], 2 * r.shape[1])
Edge(r, p) == LET m == Meet(r, p)
              IN  m[3] # 0 /\ (m[1] = 0 \/ m[2] = 0 \/ m[1] = 2 * r.shape[2] * m[3] \/ m[2] = 2 * r.shape[1] * m[3])

Clauses0(r) ==
  LET n == Len(r.near)
      pairs == M!PairsOf(n)
      ks == SelectSeq([k \in DOMAIN pairs |-> k], LAMBDA k : r.within[k])
      kept == [j \in DOMAIN ks |-> pairs[ks[j]]]
      At(X, D) == (1000 * (X \div D) + (1000 * (X % D)) \div D) \div 2
      Px(p) == LET m == Meet(r, p) s == IF m[3] < 0 THEN -1 ELSE 1 IN At(s * m[1], s * m[3])
      Py(p) == LET m == Meet(r, p) s == IF m[3] < 0 THEN -1 ELSE 1 IN At(s * m[2], s * m[3])
      Pcx(p) == (100 * Px(p)) \div r.shape[2]
      PcyDown(p) == (100 * Py(p)) \div r.shape[1]
      Pcy(p) == IF r.convention = "tsl" THEN 100000 - PcyDown(p) ELSE PcyDown(p)
      Tol == 130
  IN [
   Sizes |-> r.points = n /\ r.nlines = Len(pairs),
   Lines |-> \A k \in DOMAIN pairs :
     /\ r.lines[1][k] = r.near[pairs[k][1]] \o r.near[pairs[k][2]]
     /\ r.lines[2][k] = r.far[pairs[k][1]] \o r.far[pairs[k][2]],
   Lengths |-> \A k \in DOMAIN pairs : \A s \in 1..2 :
     LET pts == IF s = 1 THEN r.near ELSE r.far
         l2 == M!Length2(pts[pairs[k][1]], pts[pairs[k][2]])
     \* lengths in 1/100 of half a pixel
     IN  Close((r.lengths[s][k] * r.lengths[s][k]) \div 100, 100 * l2, 2 + r.lengths[s][k] \div 40),
   OutIn |-> r.outin = [k \in 1..n |-> r.far[k] \o r.near[k]],
   Kept |-> /\ Len(r.within) = Len(pairs)
           /\ \A k \in DOMAIN pairs : Edge(r, pairs[k]) \/ r.within[k] = Within(r, pairs[k]),
   Estimates |-> /\ Len(r.pc) = Len(kept) /\ Len(r.pxy) = Len(kept)
                 /\ \A k \in DOMAIN kept :
                      /\ Close(r.pxy[k][1], Px(kept[k]), 2) /\ Close(r.pxy[k][2], Py(kept[k]), 2)
                      /\ Close(r.pc[k][1], Pcx(kept[k]), Tol) /\ Close(r.pc[k][2], Pcy(kept[k]), Tol),
   \* r.grow: 10000 (1 + delta / d) from the given estimate of the distance,
   \* squared it is the growth of squared lengths
   Distance |-> Len(r.grow) = Len(kept) /\ \A k \in DOMAIN kept :
     LET a == M!Length2(r.near[kept[k][1]], r.near[kept[k][2]])
         b == M!Length2(r.far[kept[k][1]], r.far[kept[k][2]])
         Sq(x) == BMul(BMul(BNat(x), BNat(x)), BNat(a))
         B == BMul(BNat(b), BNat(100000000))
     IN  BLessEq(Sq(r.grow[k] - 2), B) /\ BLessEq(B, Sq(r.grow[k] + 2)),
   Mean |-> (Len(kept) > 0 /\ ~r.big) => \A c \in 1..3 :
     Close(r.mean[c] * Len(kept), SumSeq([k \in DOMAIN kept |-> r.pc[k][c]]), 2 * Len(kept)),
   MeanXY |-> Len(kept) > 0 => \A c \in 1..2 :
     Close(r.meanxy[c] * Len(kept), SumSeq([k \in DOMAIN kept |-> r.pxy[k][c]]), 2 * Len(kept)),
   \* The exact case: all estimates are the true one
   Exact |-> r.exact => \A k \in DOMAIN r.pc : \A c \in 1..3 : Close(r.pc[k][c], r.true[c], 3),
   Untouched |-> r.same
  ]
\* The figure: the near points and lines between them, the far ones, and both
\* with lines from far to near points, the estimates, and their mean in all.
\* Drawn points in 1/1000 pixel
Drawn(r) ==
  LET n == Len(r.near)
      pairs == M!PairsOf(n)
      Px(ps) == [i \in DOMAIN ps |-> <<500 * ps[i][1], 500 * ps[i][2]>>]
      Shown(a, want) == \E k \in DOMAIN a : SeqSeqClose(a[k], want, 0)
      \* Lines in any direction and order
      Ends(l4) == {<<l4[1], l4[2]>>, <<l4[3], l4[4]>>}
      Between(ps) == {{ps[p[1]], ps[p[2]]} : p \in {pairs[k] : k \in DOMAIN pairs}}
      All(ls) == {Ends(ls[k]) : k \in DOMAIN ls}
  IN [
   Panels |-> Len(r.points) = 3 /\ Len(r.lines) = 3,
   Near |-> Shown(r.points[1], Px(r.near)) /\ All(r.lines[1]) = Between(r.near),
   Far |-> Shown(r.points[2], Px(r.far)) /\ All(r.lines[2]) = Between(r.far),
   Both |-> Shown(r.points[3], Px(r.near)) /\ Shown(r.points[3], Px(r.far)),
   OutIn |-> All(r.lines[3]) = {{r.far[k], r.near[k]} : k \in 1..n},
   Estimates |-> Shown(r.points[3], r.pxy),
   Mean |-> \A a \in 1..3 : Shown(r.points[a], <<r.mean>>),
   Nothing |-> /\ \A k \in DOMAIN r.points[1] : r.points[1][k] \in {Px(r.near), <<r.mean>>}
               /\ \A k \in DOMAIN r.points[2] : r.points[2][k] \in {Px(r.far), <<r.mean>>},
   Patterns |-> r.images,
   NoFigure |-> r.none
  ]
TClauses(s, r) == IF r.op = "drawn" THEN Drawn(r) ELSE Clauses0(r)
=============================================================================
