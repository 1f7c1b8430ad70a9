---------------------------- MODULE TraceSession ----------------------------
EXTENDS TraceBase, Num
S == INSTANCE Session WITH Depth <- 0, st <- <<>>, hist <- <<>>, start <- <<>>

\* The abstract state is [a |-> signal state, o |-> the original]
TInit == [a |-> <<>>, o |-> <<>>]

Fresh(r) ==
  [nav |-> r.nav, ax |-> [i \in 1..Len(r.nav) |-> i],
   pts |-> [i \in 1..ProdSeq(r.nav) |-> <<i>>],
   rows |-> [i \in 1..r.sig[1] |-> <<i>>], cols |-> [i \in 1..r.sig[2] |-> <<i>>],
   f |-> <<0, r.sig[1], 0, r.sig[2]>>,
   pc |-> IF r.pcn THEN "per" ELSE "one", pcn |-> r.pcn, C2 |-> <<0, 0, 0>>, bin |-> 1,
   exact |-> "yes", bgexact |-> "yes", xmap |-> r.xmap.has, bg |-> r.bg.has, lazy |-> r.lazy,
   dtype |-> r.dtype, off |-> TRUE]

After(s, r) == IF r.name = "start" THEN Fresh(r) ELSE S!Apply(s.a, r)
Orig(s, r) == IF r.name = "start" THEN r.orig ELSE s.o

TStep(s, r) ==
  [a |-> [After(s, r) EXCEPT !.xmap = r.xmap.has, !.bg = r.bg.has, !.dtype = r.dtype],
   o |-> Orig(s, r)]

\* Original column count, and position of original point id on original axis x
NX(o) == IF Len(o.nav) = 2 THEN o.nav[2] ELSE 1
Coord(o, id, x) == IF Len(o.nav) = 1 THEN id - 1
                   ELSE IF x = 1 THEN (id - 1) \div NX(o) ELSE (id - 1) % NX(o)

\* Observed values v[1..n] are an increasing function of the expected ones e
SameOrder(v, e) ==
  /\ \A i \in 1..Len(e) : \A j \in 1..Len(e) : e[i] < e[j] => v[i] <= v[j]
  /\ MinSeq(e) < MaxSeq(e) => MinSeq(v) < MaxSeq(v)
Matches(v, e, kind) ==
  /\ Len(v) = Len(e)
  /\ CASE kind = "yes" -> v = e
       [] kind = "order" -> SameOrder(v, e)
       [] kind = "no" -> TRUE

SumPixels(P, a, i) ==
  LET nc == Len(a.cols)
      R == a.rows[(i - 1) \div nc + 1]
      C == a.cols[((i - 1) % nc) + 1]
  IN  SumSeq([t \in 1..(Len(R) * Len(C)) |->
                P[R[(t - 1) \div Len(C) + 1]][C[((t - 1) % Len(C)) + 1]]])

Expected(o, a, j) ==
  LET pt == a.pts[j]
  IN  TLCEval([i \in 1..(Len(a.rows) * Len(a.cols)) |->
         SumSeq([t \in 1..Len(pt) |-> SumPixels(o.P[pt[t]], a, i)])])
ExpectedBg(o, a) ==
  TLCEval([i \in 1..(Len(a.rows) * Len(a.cols)) |-> SumPixels(o.bg, a, i)])

\* Two times the center in pixels of the frame
Center2(o, a, j) ==
  CASE a.pc = "per" -> o.pc[a.pts[j][1]]
    [] a.pc = "one" -> o.pc[1]
    [] a.pc = "reset" -> a.C2
PcIs(v, C2, a) ==
  LET h == a.f[2] - a.f[1]
      w == a.f[4] - a.f[3]
      tol(d) == 2 * d + 2
  IN  /\ Abs(2 * w * v[1] - 10000 * (C2[1] - 2 * a.f[3])) <= tol(w)
      /\ Abs(2 * h * v[2] - 10000 * (C2[2] - 2 * a.f[1])) <= tol(h)
      /\ Abs(2 * h * v[3] - 10000 * C2[3]) <= tol(h)

Single(a) == \A j \in 1..Len(a.pts) : Len(a.pts[j]) = 1
Representable(nav) == Len(nav) = 0 \/ (ProdSeq(nav) > 1 /\ (Len(nav) = 1 \/ (nav[1] > 1 /\ nav[2] > 1)))
\* Index on axis i of point j
On(nav, i, j) == IF Len(nav) = 1 THEN j - 1 ELSE IF i = 1 THEN (j - 1) \div nav[2] ELSE (j - 1) % nav[2]

TClauses(s, r) ==
  LET a == After(s, r)
      o == Orig(s, r)
      np == Len(a.pts)
      ny == Len(a.rows)
      nx == Len(a.cols)
      navpc == IF Len(a.nav) = 0 THEN <<1>> ELSE a.nav
  IN  [DataShape |-> r.shape = a.nav \o <<ny, nx>>,
       PatternsKept |-> Len(r.data) = np /\ \A j \in 1..np : Matches(r.data[j], Expected(o, a, j), a.exact),
       DetectorShape |-> r.det_shape = <<ny, nx>>,
       CenterPerPoint |-> r.det_nav = (IF a.pcn THEN navpc ELSE <<1>>),
       CentersFollow |->
         a.bin # 0 => \A j \in 1..Len(r.pc) : PcIs(r.pc[j], Center2(o, a, j), a),
       TiltsKept |-> r.tilts = o.tilts,
       BinningFollows |-> a.bin # 0 => r.binning = 10 * o.binning * a.bin,
       MapShape |-> r.xmap.has => (r.xmap.size = np /\ (Len(a.nav) = 0 \/ r.xmap.shape = a.nav)),
       MapPointsFollow |->
         r.xmap.has =>
           \A j \in 1..np : /\ r.xmap.ids[j] = a.pts[j][1] /\ r.xmap.rot[j] = a.pts[j][1]
                            /\ r.xmap.phase[j] = a.pts[j][1] % 2,
       MapCoordinates |->
         r.xmap.has /\ Len(a.nav) > 0 =>
           \A i \in 1..Len(a.nav) :
             LET q == IF a.ax[i] = Len(o.nav) THEN r.xmap.x ELSE r.xmap.y
                 c == [j \in 1..np |-> Coord(o, a.pts[j][1], a.ax[i])]
             IN  a.nav[i] > 1 =>
                   /\ Len(q) = np
                   /\ \A j \in 1..np : q[j] - q[1] = o.step[a.ax[i]] * Abs(c[j] - c[1]),
       MapKept |-> a.xmap /\ Representable(a.nav) => r.xmap.has,
       NoMapFromNowhere |-> r.xmap.has => a.xmap,
       BackgroundFollows |->
         r.bg.has => r.bg.shape = <<ny, nx>> /\ Matches(r.bg.values, ExpectedBg(o, a), a.bgexact),
       BackgroundKept |-> a.bg => r.bg.has,
       NavigationAxes |->
         a.off /\ Single(a) =>
           \A i \in 1..Len(a.nav) : \A j \in 1..np :
             r.off[i] + r.scale[i] * On(a.nav, i, j) = o.step[a.ax[i]] * Coord(o, a.pts[j][1], a.ax[i]),
       SignalAxes |->
         /\ (\A i \in 1..ny : Len(a.rows[i]) = 1) =>
              \A i \in 1..ny : r.sig_off[1] + r.sig_scale[1] * (i - 1) = o.sig_step[1] * (a.rows[i][1] - 1)
         /\ (\A i \in 1..nx : Len(a.cols[i]) = 1) =>
              \A i \in 1..nx : r.sig_off[2] + r.sig_scale[2] * (i - 1) = o.sig_step[2] * (a.cols[i][1] - 1),
       Laziness |-> r.lazy = a.lazy,
       DataType |-> r.name \in {"rebin", "start"} \/ r.dtype = a.dtype,
       StaysEBSD |-> r.cls = (IF a.lazy THEN "LazyEBSD" ELSE "EBSD")]
=============================================================================
