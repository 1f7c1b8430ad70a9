------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* An EBSD signal as it is cropped, sliced, binned, converted and copied.  *)
(*                                                                         *)
(* The state says where every pattern and every detector pixel came from:  *)
(*   nav    navigation shape, array order (0, 1 or 2 dimensions)           *)
(*   ax     for each navigation axis the axis of the original map (1: row, *)
(*          2: column)                                                     *)
(*   pts    for each map point, row by row, the original points in it      *)
(*   rows   for each detector row the original rows in it; cols likewise   *)
(*   f      detector frame <<r0, r1, c0, c1>> in units of a pixel          *)
(*   pc     "per" (one center per original point), "one" (a single one) or *)
(*          "reset"; center at C2 in units of half a pixel of the frame    *)
(*   pcn    whether there is one center per map point                      *)
(*   bin    binning, 0 if pixels were binned differently in rows and cols  *)
(*   exact  intensities are sums of the original ones; "order" if they     *)
(*          were stretched afterwards, "no" if stretched patterns were     *)
(*          summed                                                         *)
(***************************************************************************)
EXTENDS Num

None == 1000
DivBy(a, b) == a % b = 0
Mod(a, b) == a % b

PyIndices(a, b, st, n) ==
  LET lo == IF st > 0
            THEN (IF a = None THEN 0 ELSE IF a < 0 THEN MaxOf(a + n, 0) ELSE MinOf(a, n))
            ELSE (IF a = None THEN n - 1 ELSE IF a < 0 THEN MaxOf(a + n, -1) ELSE MinOf(a, n - 1))
      hi == IF st > 0
            THEN (IF b = None THEN n ELSE IF b < 0 THEN MaxOf(b + n, 0) ELSE MinOf(b, n))
            ELSE (IF b = None THEN -1 ELSE IF b < 0 THEN MaxOf(b + n, -1) ELSE MinOf(b, n - 1))
      k == IF st > 0 THEN (hi - lo + st - 1) \div st ELSE (lo - hi - st - 1) \div (-st)
  IN  [i \in 1..MaxOf(k, 0) |-> lo + (i - 1) * st]

\* A selection along an axis: an integer (k = "i") or a slice (k = "s")
SelIndices(s, n) ==
  IF s.k = "i" THEN <<IF s.a < 0 THEN s.a + n ELSE s.a>> ELSE PyIndices(s.a, s.b, s.st, n)
Contiguous(idx) == \A i \in 1..(Len(idx) - 1) : idx[i + 1] = idx[i] + 1

Full == [k |-> "s", a |-> None, b |-> None, st |-> 1]
Pick(q, idx) == [i \in 1..Len(idx) |-> q[idx[i] + 1]]

\* Point at index t (a sequence, from 0) of a map of shape sh
FlatAt(sh, t) == IF Len(sh) = 0 THEN 1 ELSE IF Len(sh) = 1 THEN t[1] + 1 ELSE t[1] * sh[2] + t[2] + 1

\* Map points selected by one index sequence per axis
PickPoints(pts, sh, ix) ==
  IF Len(sh) = 0 THEN pts
  ELSE IF Len(sh) = 1 THEN Pick(pts, ix[1])
  ELSE LET m == Len(ix[2])
       IN  [j \in 1..(Len(ix[1]) * m) |->
              pts[FlatAt(sh, <<ix[1][(j - 1) \div m + 1], ix[2][Mod(j - 1, m) + 1]>>)]]

Drop(q, keep) ==
  LET RECURSIVE F(_)
      F(i) == IF i > Len(q) THEN <<>> ELSE (IF keep[i] THEN <<q[i]>> ELSE <<>>) \o F(i + 1)
  IN  F(1)

\* Rows and columns in groups of k
Group(q, k) ==
  [i \in 1..(Len(q) \div k) |-> FoldLeft(LAMBDA x, y : x \o y, <<>>, SubSeq(q, (i - 1) * k + 1, i * k))]
\* Map points in groups of ky * kx
GroupPoints(pts, sh, k) ==
  IF Len(sh) = 1 THEN Group(pts, k[1])
  ELSE LET my == sh[1] \div k[1]
           mx == sh[2] \div k[2]
       IN  [j \in 1..(my * mx) |->
              LET y0 == ((j - 1) \div mx) * k[1]
                  x0 == Mod(j - 1, mx) * k[2]
              IN  FoldLeft(LAMBDA acc, t : acc \o pts[FlatAt(sh, <<y0 + (t \div k[2]), x0 + Mod(t, k[2])>>)],
                           <<>>, [t \in 1..(k[1] * k[2]) |-> t - 1])]

PixelsOf(s) == (s.f[2] - s.f[1]) \div Len(s.rows)   \* rows of the frame per detector row

NavSelect(s, sel) ==
  LET nd == Len(s.nav)
      ix == [i \in 1..nd |-> SelIndices(sel[i], s.nav[i])]
      keep == [i \in 1..nd |-> sel[i].k = "s"]
  IN  [s EXCEPT !.pts = PickPoints(s.pts, s.nav, ix),
                !.nav = Drop([i \in 1..nd |-> Len(ix[i])], keep),
                !.ax = Drop(s.ax, keep)]

SigSelect(s, sel) ==
  LET ri == SelIndices(sel[1], Len(s.rows))
      ci == SelIndices(sel[2], Len(s.cols))
      new == [s EXCEPT !.rows = Pick(s.rows, ri), !.cols = Pick(s.cols, ci)]
      k == PixelsOf(s)
      kc == (s.f[4] - s.f[3]) \div Len(s.cols)
  IN  IF Contiguous(ri) /\ Contiguous(ci) /\ sel[1].st = 1 /\ sel[2].st = 1
      THEN [new EXCEPT !.f = <<s.f[1] + ri[1] * k, s.f[1] + (ri[1] + Len(ri)) * k,
                               s.f[3] + ci[1] * kc, s.f[3] + (ci[1] + Len(ci)) * kc>>]
      ELSE \* Directions are lost
           [new EXCEPT !.f = <<0, Len(ri), 0, Len(ci)>>, !.pc = "reset", !.pcn = FALSE,
                       !.C2 = <<Len(ci), Len(ri), Len(ri)>>]

Stretched(e) == IF e = "no" THEN "no" ELSE "order"

Downsample(s, k) ==
  [s EXCEPT !.rows = Group(s.rows, k), !.cols = Group(s.cols, k), !.bin = s.bin * k,
            !.exact = Stretched(s.exact), !.bgexact = Stretched(s.bgexact)]

\* Sums over ky * kx points and ry * rx pixels; what does not fill a new
\* point or pixel is cropped away
Rebin(s, kn, kr, kc) ==
  LET merged == \E i \in 1..Len(kn) : kn[i] # 1
      rows == Group(s.rows, kr)
      cols == Group(s.cols, kc)
      hr == PixelsOf(s)
      hc == (s.f[4] - s.f[3]) \div Len(s.cols)
      new == [s EXCEPT !.rows = rows, !.cols = cols,
                !.f = <<s.f[1], s.f[1] + Len(rows) * kr * hr, s.f[3], s.f[3] + Len(cols) * kc * hc>>,
                !.bin = IF kr = kc THEN s.bin * kr ELSE 0]
  IN  IF ~merged THEN new
      ELSE [new EXCEPT !.pts = GroupPoints(s.pts, s.nav, kn),
                       !.nav = [i \in 1..Len(kn) |-> s.nav[i] \div kn[i]],
                       !.xmap = FALSE, !.bg = FALSE, !.pc = "reset", !.pcn = TRUE,
                       !.C2 = <<new.f[3] + new.f[4], new.f[1] + new.f[2], new.f[2] - new.f[1]>>,
                       !.exact = IF s.exact = "order" THEN "no" ELSE s.exact]

\* Grid of the given indices, one sequence per axis
Grid(s, ix) ==
  [s EXCEPT !.pts = PickPoints(s.pts, s.nav, ix), !.nav = [i \in 1..Len(ix) |-> Len(ix[i])],
            !.off = FALSE]

Apply(s, r) ==
  CASE r.name = "inav" -> NavSelect(s, r.sel)
    [] r.name = "isig" -> SigSelect(s, r.sel)
    [] r.name = "crop" ->
         IF r.axis <= Len(s.nav)
         THEN NavSelect(s, [i \in 1..Len(s.nav) |-> IF i = r.axis THEN r.sel[1] ELSE Full])
         ELSE SigSelect(s, IF r.axis = Len(s.nav) + 1 THEN <<r.sel[1], Full>> ELSE <<Full, r.sel[1]>>)
    [] r.name = "downsample" -> Downsample(s, r.k)
    [] r.name = "rebin" -> Rebin(s, r.kn, r.kr, r.kc)
    [] r.name = "grid" -> Grid(s, r.ix)
    [] r.name = "lazy" -> [s EXCEPT !.lazy = TRUE]
    [] r.name = "compute" -> [s EXCEPT !.lazy = FALSE]
    [] r.name = "dtype" -> [s EXCEPT !.dtype = r.to]
    [] r.name = "copy" -> s

------------------------------------------------------------------------------
(* Small model: histories of some operations.                               *)
CONSTANTS Depth
VARIABLES st, hist, start
vars == <<st, hist, start>>

Fresh(nav, pcn) ==
  [nav |-> nav, ax |-> [i \in 1..Len(nav) |-> i],
   pts |-> [i \in 1..ProdSeq(nav) |-> <<i>>],
   rows |-> [i \in 1..4 |-> <<i>>], cols |-> [i \in 1..6 |-> <<i>>], f |-> <<0, 4, 0, 6>>,
   pc |-> IF pcn THEN "per" ELSE "one", pcn |-> pcn, C2 |-> <<0, 0, 0>>, bin |-> 1,
   exact |-> "yes", bgexact |-> "yes", xmap |-> TRUE, bg |-> TRUE, lazy |-> FALSE,
   dtype |-> "uint8", off |-> TRUE]

Sl(a, b, c) == [k |-> "s", a |-> a, b |-> b, st |-> c]
In(a) == [k |-> "i", a |-> a, b |-> 0, st |-> 1]
NavSels(n) == {Full, Sl(1, None, 1), Sl(None, -1, 1), Sl(None, None, 2), Sl(None, None, -1), In(0), In(-1)}
CropSels == {Sl(1, None, 1), Sl(None, -1, 1)}

Ops(s) ==
  {[name |-> "inav", sel |-> t] : t \in
     IF Len(s.nav) = 0 THEN {} ELSE IF Len(s.nav) = 1 THEN {<<x>> : x \in NavSels(1)}
     ELSE {<<x, y>> : x \in {Full, Sl(1, None, 1), In(-1)}, y \in NavSels(1)}}
  \cup {[name |-> "isig", sel |-> t] : t \in
     {<<Sl(1, None, 1), Full>>, <<Full, Sl(None, -1, 1)>>, <<Sl(None, None, 2), Full>>, <<Sl(1, 3, 1), Sl(1, -1, 1)>>}}
  \cup {[name |-> "crop", axis |-> i, sel |-> <<x>>] : i \in 1..(Len(s.nav) + 2), x \in CropSels}
  \cup {[name |-> "downsample", k |-> 2]}
  \cup {[name |-> "rebin", kn |-> [i \in 1..Len(s.nav) |-> IF i = 1 THEN k[1] ELSE 1], kr |-> k[2], kc |-> k[3]] :
          k \in {<<1, 2, 2>>, <<2, 1, 1>>, <<1, 1, 3>>}}
  \cup {[name |-> "lazy"], [name |-> "compute"], [name |-> "copy"]}

Divides(s, o) ==
  DivBy(Len(s.rows), o.kr) /\ DivBy(Len(s.cols), o.kc) /\ \A i \in 1..Len(s.nav) : DivBy(s.nav[i], o.kn[i])
NonEmpty(s) == Len(s.pts) > 0 /\ Len(s.rows) > 1 /\ Len(s.cols) > 1 /\ \A i \in 1..Len(s.nav) : s.nav[i] > 0
Enabled(s, o) ==
  CASE o.name = "inav" -> \A i \in 1..Len(s.nav) : Len(SelIndices(o.sel[i], s.nav[i])) > 0
    [] o.name = "isig" -> \A i \in 1..2 :
          LET n == Len(SelIndices(o.sel[i], IF i = 1 THEN Len(s.rows) ELSE Len(s.cols))) IN n > 1
    [] o.name = "crop" -> (IF o.axis <= Len(s.nav) THEN s.nav[o.axis] > 1
                           ELSE IF o.axis = Len(s.nav) + 1 THEN Len(s.rows) > 2 ELSE Len(s.cols) > 2)
    [] o.name = "downsample" -> DivBy(Len(s.rows), 2) /\ DivBy(Len(s.cols), 2) /\ Len(s.rows) > 2 /\ Len(s.cols) > 2
    [] o.name = "rebin" -> /\ \A i \in 1..Len(s.nav) : s.nav[i] >= o.kn[i]
                           /\ Len(s.rows) >= 2 * o.kr /\ Len(s.cols) >= 2 * o.kc
                           /\ (Len(s.nav) > 0 \/ o.kr * o.kc > 1)
                           /\ (s.lazy => Divides(s, o))
    [] o.name = "lazy" -> ~s.lazy
    [] o.name = "compute" -> s.lazy
    [] o.name = "copy" -> TRUE

Init ==
  /\ start \in [nav : {<<>>, <<3>>, <<2, 3>>}, pcn : BOOLEAN]
  /\ st = Fresh(start.nav, start.pcn) /\ hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E o \in Ops(st) : Enabled(st, o) /\ st' = Apply(st, o) /\ hist' = Append(hist, o)
  /\ UNCHANGED start
Spec == Init /\ [][Next]_vars

Consistent ==
  /\ Len(st.pts) = ProdSeq(st.nav) /\ Len(st.ax) = Len(st.nav) /\ NonEmpty(st)
\* The frame is a whole number of equal pixels
Frame == /\ DivBy(st.f[2] - st.f[1], Len(st.rows)) /\ DivBy(st.f[4] - st.f[3], Len(st.cols))
         /\ st.f[2] > st.f[1] /\ st.f[4] > st.f[3]
\* Until directions are lost, a pixel is where its original pixels are
Directions == st.pc # "reset" =>
  /\ \A i \in 1..Len(st.rows) : \A j \in DOMAIN st.rows[i] :
        st.rows[i][j] = st.f[1] + (i - 1) * Len(st.rows[i]) + j
  /\ \A i \in 1..Len(st.cols) : \A j \in DOMAIN st.cols[i] :
        st.cols[i][j] = st.f[3] + (i - 1) * Len(st.cols[i]) + j
\* No point of the original is in two points
NoDuplicates == \A i, j \in 1..Len(st.pts) : i # j =>
  {st.pts[i][k] : k \in DOMAIN st.pts[i]} \cap {st.pts[j][k] : k \in DOMAIN st.pts[j]} = {}
=============================================================================
