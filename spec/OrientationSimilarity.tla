------------------------ MODULE OrientationSimilarity ------------------------
(***************************************************************************)
(* Orientation similarity: in each point, the mean over its neighbours of  *)
(* the number of matches that are among the n best in both points.         *)
(*                                                                         *)
(* A map is a row-major sequence of ny * nx lists of simulation indices,   *)
(* best first.  The footprint F is a 0/1 matrix with its origin at element *)
(* (fy \div 2, fx \div 2) counting from 0.                                 *)
(***************************************************************************)
EXTENDS Num

Neighbours(ny, nx, F, y, x) ==
  LET fy == Len(F)
      fx == Len(F[1])
      oy == fy \div 2
      ox == fx \div 2
  IN  {t \in {<<y + i - oy, x + j - ox, F[i + 1][j + 1]>> :
               i \in {a \in Range0(fy) : y + a - oy \in Range0(ny)},
               j \in {a \in Range0(fx) : x + a - ox \in Range0(nx)}} :
         t[3] # 0 /\ <<t[1], t[2]>> # <<y, x>>}

Best(S, p, n) == {S[p][i] : i \in 1..n}
Common(S, p, r, n) == Cardinality(Best(S, p, n) \cap Best(S, r, n))

\* Number of neighbours, and sum of common matches over them
Count(ny, nx, F, y, x) == Cardinality(Neighbours(ny, nx, F, y, x))
Total(S, ny, nx, F, y, x, n) ==
  FoldSet(LAMBDA t, acc : acc + Common(S, y * nx + x + 1, t[1] * nx + t[2] + 1, n),
          0, Neighbours(ny, nx, F, y, x))

------------------------------------------------------------------------------
(* The map is filled point by point, in the order of the points, for each   *)
(* n from n_best down to from_n_best.                                       *)

CONSTANTS MaxY, MaxX, Keep, Ids, Footprints
VARIABLES ny, nx, S, F, nb, nf, n, p, osm
vars == <<ny, nx, S, F, nb, nf, n, p, osm>>

Lists == {s \in [1..Keep -> Ids] : \A i, j \in 1..Keep : i # j => s[i] # s[j]}

Init ==
  /\ ny \in 1..MaxY /\ nx \in 1..MaxX
  /\ S \in [1..(ny * nx) -> Lists]
  /\ F \in Footprints
  /\ nb \in 1..Keep /\ nf \in 1..nb
  /\ n = nb /\ p = 0
  /\ osm = <<>>

Point ==
  /\ n >= nf /\ p < ny * nx
  /\ osm' = Append(osm, <<n, p, Total(S, ny, nx, F, p \div nx, p % nx, n),
                          Count(ny, nx, F, p \div nx, p % nx)>>)
  /\ p' = p + 1
  /\ UNCHANGED <<ny, nx, S, F, nb, nf, n>>
Layer ==
  /\ n >= nf /\ p = ny * nx
  /\ n' = n - 1 /\ p' = 0
  /\ UNCHANGED <<ny, nx, S, F, nb, nf, osm>>
Next == Point \/ Layer
Spec == Init /\ [][Next]_vars

\* Never more than n common matches per neighbour, and never fewer when more
\* of the best matches are compared
Bounded == \A i \in 1..Len(osm) : osm[i][3] \in 0..(osm[i][1] * osm[i][4])
Monotone == \A i, j \in 1..Len(osm) :
  osm[i][2] = osm[j][2] /\ osm[i][1] >= osm[j][1] => osm[i][3] >= osm[j][3]
\* Points of identical lists have the highest similarity
Saturated == \A i \in 1..Len(osm) :
  (\A a, b \in 1..(ny * nx) : Best(S, a, osm[i][1]) = Best(S, b, osm[i][1])) =>
     osm[i][3] = osm[i][1] * osm[i][4]
LayersInOrder == \A i \in 1..Len(osm) : osm[i][1] = nb - ((i - 1) \div (ny * nx))
==============================================================================
