------------------------------ MODULE Filters ------------------------------
(***************************************************************************)
(* Windows and filters.                                                    *)
(*                                                                         *)
(* Model 1 (Filtering): filtering with a kernel in the frequency domain.   *)
(* The image is laid out in an array of the transform's length with its    *)
(* edge pixels repeated around it, the flipped kernel in another one; the  *)
(* product of their transforms is their cyclic convolution, of which a     *)
(* part is cut out.  For every length that is long enough, this is the     *)
(* kernel's correlation with the image, edge pixels repeated.  Rows and    *)
(* columns are treated alike, so the model has one dimension.              *)
(*                                                                         *)
(* Model 2 (Windows): a window made circular, copied, cut and scaled, in   *)
(* any order.                                                              *)
(***************************************************************************)
EXTENDS Num

CONSTANTS MaxImage, MaxWindow, MaxExtra, Sides, Ops
VARIABLES st
\* Sum over the integers 0 .. n - 1
SumTo(n, F(_)) == SumSeq([k \in 1..n |-> F(k - 1)])
Clamp(k, n) == IF k < 0 THEN 0 ELSE IF k > n - 1 THEN n - 1 ELSE k

\* ------------------------------------------------------------- Filtering
\* Arrays of model 1 are functions of 0 .. n - 1
OriginOf(n) == n \div 2
Correlated(img, ni, win, nw) ==
  [y \in 0..(ni - 1) |-> SumTo(nw, LAMBDA j : win[j] * img[Clamp(y + j - OriginOf(nw), ni)])]
Before(nw) == nw - ((nw - 1) \div 2) - 1
After(nw) == (nw - 1) \div 2
PaddedWindow(win, nw, n) == [k \in 0..(n - 1) |-> IF k < nw THEN win[nw - 1 - k] ELSE 0]
PaddedImage(img, ni, nw, n) ==
  [k \in 0..(n - 1) |-> IF k < ni THEN img[k]
                        ELSE IF k < ni + After(nw) THEN img[ni - 1]
                        ELSE IF k >= n - Before(nw) THEN img[0] ELSE 0]
Cyclic(a, b, n) == [k \in 0..(n - 1) |-> SumTo(n, LAMBDA j : a[j] * b[(k - j + n) % n])]
CutOut(c, ni, nw) == [y \in 0..(ni - 1) |-> c[y + After(nw)]]

FImage(n) == [k \in 0..(n - 1) |-> k * k + 3 * (k % 2) + 1]
FWindow(n) == [k \in 0..(n - 1) |-> 2 * k + 1 - 5 * (k % 2)]
FInit == \E ni \in 1..MaxImage : \E nw \in 1..MaxWindow : \E e \in 0..MaxExtra :
  st = [step |-> "start", ni |-> ni, nw |-> nw, n |-> ni + nw - 1 + e,
        img |-> FImage(ni), win |-> FWindow(nw)]
FPad == /\ st.step = "start"
        /\ st' = [st EXCEPT !.step = "padded", !.img = PaddedImage(st.img, st.ni, st.nw, st.n),
                            !.win = PaddedWindow(st.win, st.nw, st.n)]
FMultiply == /\ st.step = "padded"
             /\ st' = [st EXCEPT !.step = "multiplied", !.img = Cyclic(st.img, st.win, st.n)]
FCut == st.step = "multiplied" /\ st' = [st EXCEPT !.step = "done", !.img = CutOut(@, st.ni, st.nw)]
FNext == FPad \/ FMultiply \/ FCut
FSpec == FInit /\ [][FNext]_st /\ WF_st(FNext)
FIsCorrelation == st.step = "done" =>
  st.img = Correlated(FImage(st.ni), st.ni, FWindow(st.nw), st.nw)
FEnds == <>(st.step = "done")

\* --------------------------------------------------------------- Windows
\* A window of rows and columns: shape <<ny, nx>> or <<nx>>, values in row
\* order
RowsOf(shape) == IF Len(shape) = 1 THEN 1 ELSE shape[1]
ColsOf(shape) == shape[Len(shape)]
AtRow(k, shape) == (k - 1) \div ColsOf(shape)
AtCol(k, shape) == (k - 1) % ColsOf(shape)
\* Squared distance to the origin of element k
Dist2(k, shape) ==
  LET c == AtCol(k, shape) - OriginOf(ColsOf(shape))
      w == AtRow(k, shape) - OriginOf(shape[1])
  IN  IF Len(shape) = 1 THEN c * c ELSE c * c + w * w
InCorner(k, shape) ==
  Len(shape) = 2 /\ LET m == MaxOf(OriginOf(shape[1]), OriginOf(shape[2]))
                    IN  Dist2(k, shape) > m * m
NewName(name, shape) ==
  IF Len(shape) = 2 /\ name \in {"rectangular", "boxcar"} THEN "circular" ELSE name
MakeCircular(w) ==
  [w EXCEPT !.circular = @ \/ Len(w.shape) = 2, !.name = NewName(@, w.shape),
            !.values = [k \in DOMAIN @ |-> IF InCorner(k, w.shape) THEN 0 ELSE @[k]]]
FirstRows(w, n) ==
  [w EXCEPT !.shape = <<n, ColsOf(w.shape)>>, !.values = SubSeq(@, 1, n * ColsOf(w.shape))]
Doubled(w) == [w EXCEPT !.values = [k \in DOMAIN @ |-> 2 * @[k]]]
WStep(w, op) ==
  CASE op = "circular" -> MakeCircular(w)
    [] op = "copy" -> w
    [] op = "double" -> Doubled(w)
    [] op = "cut" -> IF Len(w.shape) = 2 /\ w.shape[1] > 1 THEN FirstRows(w, w.shape[1] - 1) ELSE w

WInit == \E name \in {"rectangular", "custom", "boxcar"} :
         \E s \in {<<a>> : a \in Sides} \cup (Sides \X Sides) :
  st = [w |-> [name |-> name, circular |-> FALSE, shape |-> s,
               values |-> [k \in 1..ProdSeq(s) |-> IF name = "custom" THEN k ELSE 1]],
        hist |-> <<name>>, shape0 |-> s]
WNext == \E op \in {"circular", "copy", "double", "cut"} :
  /\ Len(st.hist) <= Ops
  /\ st' = [st EXCEPT !.w = WStep(@, op), !.hist = Append(@, op)]
WSpec == WInit /\ [][WNext]_st
Latest == st.hist[Len(st.hist)]
WCornersZero == Latest = "circular" => \A k \in DOMAIN st.w.values :
  InCorner(k, st.w.shape) => st.w.values[k] = 0
WTwice == MakeCircular(MakeCircular(st.w)) = MakeCircular(st.w)
WOriginInside == \A d \in DOMAIN st.w.shape : OriginOf(st.w.shape[d]) \in 0..(st.w.shape[d] - 1)
WOriginStays == LET s == st.w.shape
                    o == (Len(s) = 2) => MakeCircular(st.w).values[OriginOf(s[1]) * s[2] + OriginOf(s[2]) + 1]
                                         = st.w.values[OriginOf(s[1]) * s[2] + OriginOf(s[2]) + 1]
                IN  o
WShape == Len(st.w.values) = ProdSeq(st.w.shape)

\* ---------------------------------------------------------- Window values
\* 10000 times exp(-j^2 / 8)
ETable == <<10000, 8825, 6065, 3247, 1353, 439, 111, 22, 3, 0>>
E8(j) == IF j > 9 THEN 0 ELSE ETable[j + 1]
\* 10000 times the modified Hann window of n points, up to the middle
HannTable == <<
  <<10000>>, <<7071>>, <<5000, 10000>>, <<3827, 9239>>, <<3090, 8090, 10000>>,
  <<2588, 7071, 9659>>, <<2225, 6235, 9010, 10000>>, <<1951, 5556, 8315, 9808>>>>
Hann(i, n) == HannTable[n][IF 2 * i < n THEN i + 1 ELSE n - i]
\* Gaussian of standard deviation one or two, j = halves from the middle
Gauss(i, n, std) == LET j == Abs(2 * i - (n - 1)) IN E8(j \div std)
OneD(kind, i, n, std) ==
  CASE kind = "modified_hann" -> Hann(i, n)
    [] kind = "gaussian" -> Gauss(i, n, std)
    [] kind \in {"rectangular", "boxcar", "circular"} -> 10000
Outer(kind, k, shape, std) ==
  IF Len(shape) = 1 THEN OneD(kind, k - 1, shape[1], std)
  ELSE (OneD(kind, AtRow(k, shape), shape[1], std) * OneD(kind, AtCol(k, shape), shape[2], std))
       \div 10000
\* Value v of a low or high pass window at squared distance d2, with the
\* cut-off c and its width w in tenths.  The number of quarters of the width
\* beyond the cut-off is at least j
Beyond(j, d2, c, w, kind) ==
  IF kind = "lowpass" THEN (j * w + 4 * c) * (j * w + 4 * c) <= 1600 * d2
  ELSE 4 * c - j * w >= 0 /\ 1600 * d2 <= (4 * c - j * w) * (4 * c - j * w)
PassOK(v, d2, c, w, kind) ==
  IF ~Beyond(0, d2, c, w, kind) THEN v = 10000
  ELSE LET j == MaxSeq(SelectSeq([k \in 1..10 |-> k - 1], LAMBDA k : Beyond(k, d2, c, w, kind)))
       IN  IF j >= 9 THEN v = 0 ELSE (IF j = 8 THEN 0 ELSE E8(j + 1) - 1) <= v /\ v <= E8(j) + 1

\* -------------------------------------------------- Filtering of patterns
\* Patterns and kernels in row order; shapes <<ny, nx>>
Pix(p, y, x, nx) == p[y * nx + x + 1]
Correlation(p, s, w, sw) ==
  [k \in 1..(s[1] * s[2]) |->
     LET y == (k - 1) \div s[2] x == (k - 1) % s[2]
     IN  SumTo(sw[1], LAMBDA j : SumTo(sw[2], LAMBDA i :
           Pix(w, j, i, sw[2]) * Pix(p, Clamp(y + j - OriginOf(sw[1]), s[1]),
                                     Clamp(x + i - OriginOf(sw[2]), s[2]), s[2])))]
\* The transfer function is the transform of kernel w, of the pattern's shape
Convolution(p, s, w) ==
  [k \in 1..(s[1] * s[2]) |->
     LET y == (k - 1) \div s[2] x == (k - 1) % s[2]
     IN  SumTo(s[1], LAMBDA j : SumTo(s[2], LAMBDA i :
           Pix(w, j, i, s[2]) * Pix(p, (y - j + s[1]) % s[1], (x - i + s[2]) % s[2], s[2])))]
\* Fourier transform for sides 1, 2 or 4: <<real, imaginary>> part at (u, v)
Turn(k) == <<<<1, 0>>, <<0, -1>>, <<-1, 0>>, <<0, 1>>>>[(k % 4) + 1]
Fourier(p, s, u, v) ==
  LET T(y, x) == Turn((4 \div s[1]) * u * y + (4 \div s[2]) * v * x)
      Part(q) == SumTo(s[1], LAMBDA y : SumTo(s[2], LAMBDA x : T(y, x)[q] * Pix(p, y, x, s[2])))
  IN  <<Part(1), Part(2)>>
=============================================================================
