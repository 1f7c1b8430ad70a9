--------------------------- MODULE GeometricalSim ---------------------------
(***************************************************************************)
(* Geometrical simulations.  A band (hkl) of a crystal is the plane normal *)
(* to its reciprocal lattice vector; a zone axis is where bands cross.     *)
(* Both are turned into the detector's frame by a pattern's rotation and   *)
(* the detector's tilts, and met by the detector's plane at Z = 1 of its   *)
(* frame (gnomonic coordinates).  All here in exact integers.              *)
(*                                                                         *)
(* Model: bands of a list are added to a simulation pattern by pattern.    *)
(***************************************************************************)
EXTENDS Num

CONSTANTS Indices, MaxBands, Turns
VARIABLES list, pats, at, seen
vars == <<list, pats, at, seen>>

F == INSTANCE Simulation WITH Shapes <- {}, nav <- <<>>, each <- FALSE, chunk <- 1, todo <- {},
                              out <- <<>>
Transposed(m) == [i \in 1..3 |-> [j \in 1..3 |-> m[j][i]]]
\* Direction d of the crystal's frame in the detector's frame f, for the
\* orientation by quaternion h
OnDetector(d, f, h) == LET s == F!MatVec(Transposed(F!QMat(h)), d)
                       IN  <<F!Dot(f[1], s), F!Dot(f[2], s), F!Dot(f[3], s)>>

\* The lattice's base vectors are the rows of b
Recip(b) == <<F!Cross(b[2], b[3]), F!Cross(b[3], b[1]), F!Cross(b[1], b[2])>>
Along(v, rows) == [j \in 1..3 |-> v[1] * rows[1][j] + v[2] * rows[2][j] + v[3] * rows[3][j]]
Normal(hkl, b) == Along(hkl, Recip(b))
Axis(uvw, b) == Along(uvw, b)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
Reduce(v) == LET g == Gcd(Gcd(Abs(v[1]), Abs(v[2])), Abs(v[3]))
                 D(a) == IF a < 0 THEN -((-a) \div g) ELSE a \div g
             IN  <<D(v[1]), D(v[2]), D(v[3])>>
Zero == <<0, 0, 0>>
ZoneAxes(hkls) == {Reduce(u) : u \in {F!Cross(a, b) : a \in hkls, b \in hkls} \ {Zero}}

Cube == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Det == F!Frame(<<0, 1, 1>>, <<1, 0, 1>>, <<1, 0, 1>>, <<1, 0, 1>>)
In(hkl, h) == OnDetector(Normal(hkl, Cube), Det, h)
Init == /\ list \in {s \in SUBSET (Indices \ {Zero}) : Cardinality(s) \in 1..MaxBands}
        /\ pats \in [1..2 -> Turns] /\ at = 1 /\ seen = {}
Next == /\ at <= 2
        /\ seen' = seen \cup {v \in list : In(v, pats[at])[3] >= 0}
        /\ at' = at + 1 /\ UNCHANGED <<list, pats>>
Spec == Init /\ [][Next]_vars

\* A band or its opposite is seen
OneOfOpposites == at = 3 =>
  \A v \in list : v \in seen \/ \A i \in 1..2 : In(<<-v[1], -v[2], -v[3]>>, pats[i])[3] > 0
\* A zone axis is on the traces of its bands, wherever it meets the detector
OnTraces == \A a, b \in seen : \A i \in 1..2 :
  LET u == F!Cross(a, b)
      d == OnDetector(Axis(u, Cube), Det, pats[i])
  IN  F!Dot(In(a, pats[i]), d) = 0 /\ F!Dot(In(b, pats[i]), d) = 0
Opposites == \A u \in ZoneAxes(seen) : <<-u[1], -u[2], -u[3]>> \in ZoneAxes(seen)
Lengths == \A v \in list : \A i \in 1..2 :
  LET d == In(v, pats[i]) h == pats[i]
      n == h[1] * h[1] + h[2] * h[2] + h[3] * h[3] + h[4] * h[4]
  IN  F!Dot(d, d) = n * n * F!Dot(v, v)
=============================================================================
