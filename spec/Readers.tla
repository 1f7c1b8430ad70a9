------------------------------ MODULE Readers ------------------------------
(***************************************************************************)
(* Reading a vendor's file.                                                *)
(*                                                                         *)
(* A map of ny x nx points is acquired pattern by pattern, and each        *)
(* pattern is appended to the file.  Points are numbered row by row from   *)
(* 0.  Formats that store patterns row by row get point k as pattern k+1;  *)
(* formats that record positions may get the points in any order, and the  *)
(* acquisition may stop at any time.  Loading places each stored pattern   *)
(* at its point.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Shapes

VARIABLES file, loaded
vars == <<file, loaded>>

\* Formats, and what there is to vary in each of them
Options == [
  nordif |-> {"setting", "given", "int", "part"},
  edax_binary |-> {"v1", "v1nav", "v3", "v3nav", "hex", "badnav", "v2"},
  edax_h5 |-> {"plain", "hex"},
  bruker |-> {"plain", "roi", "hex"},
  oxford_h5 |-> {"processed", "unprocessed"},
  oxford_binary |-> {"v0", "v1", "v2", "v4", "v5"},
  emsoft |-> {"flat", "tuple", "int"},
  directory |-> {"xy", "dash", "custom", "none"}]
Formats == DOMAIN Options

N(f) == f.ny * f.nx
Stored(f) == {f.order[k] : k \in 1..Len(f.order)}
Is(f, fmt, opts) == f.fmt = fmt /\ f.opt \in opts
RecordsPosition(f) == f.fmt = "oxford_binary" \/ Is(f, "bruker", {"roi"})
                      \/ Is(f, "directory", {"xy", "dash", "custom"})

\* Place in the file of the pattern from a point, or 0 if it is not there
At(f, p) == IF p \in Stored(f) THEN CHOOSE k \in 1..Len(f.order) : f.order[k] = p ELSE 0

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE <<Min(S)>> \o Sorted(S \ {Min(S)})
Rows(f) == {p \div f.nx : p \in Stored(f)}
Cols(f) == {p - f.nx * (p \div f.nx) : p \in Stored(f)}
AllRowsAndCols(f) == Cardinality(Stored(f)) = Cardinality(Rows(f)) * Cardinality(Cols(f))
Contiguous(S) == Max(S) - Min(S) + 1 = Cardinality(S)

Refused(f) ==
  \/ Is(f, "edax_h5", {"hex"})
  \/ Is(f, "bruker", {"hex"})
  \/ Is(f, "bruker", {"roi"}) /\ ~ (AllRowsAndCols(f) /\ Contiguous(Rows(f)) /\ Contiguous(Cols(f)))
  \/ Is(f, "edax_binary", {"badnav", "v2"})

\* The patterns make up one line, since (all of) their positions are not known
Flat(f) ==
  \/ Is(f, "edax_binary", {"v1", "hex"})
  \/ f.fmt = "oxford_binary" /\ (f.opt = "v0" \/ Len(f.order) < N(f))
  \/ Is(f, "emsoft", {"flat", "int"})
  \/ f.fmt = "directory" /\ (f.opt = "none" \/ ~ AllRowsAndCols(f))

\* Rows and columns of the returned map
MapShape(f) ==
  CASE f.fmt = "directory" \/ Is(f, "bruker", {"roi"}) ->
         <<Cardinality(Rows(f)), Cardinality(Cols(f))>>
    [] Is(f, "edax_binary", {"v3nav"}) -> <<f.nx, f.ny>>
    [] Is(f, "nordif", {"int"}) -> <<1, N(f)>>
    [] Is(f, "nordif", {"part"}) -> <<f.ny - 1, f.nx>>
    [] OTHER -> <<f.ny, f.nx>>
Length(f) == IF Flat(f) THEN Len(f.order) ELSE MapShape(f)[1] * MapShape(f)[2]

\* Pattern in the file to be found at each point of the returned map, row by
\* row, 0 where the pattern is missing in the file.  byname: order of file names
Grid(f, byname) ==
  IF f.fmt = "directory" /\ Flat(f) THEN byname
  ELSE IF f.fmt = "oxford_binary" /\ Flat(f)
  THEN [i \in 1..Len(f.order) |-> At(f, Sorted(Stored(f))[i])]
  ELSE IF RecordsPosition(f)
  THEN LET rs == Sorted(Rows(f))  cs == Sorted(Cols(f))  nc == Len(cs)
       IN  [i \in 1..Length(f) |->
              At(f, rs[((i - 1) \div nc) + 1] * f.nx + cs[((i - 1) % nc) + 1])]
  ELSE [i \in 1..Length(f) |-> IF i <= Len(f.order) THEN i ELSE 0]

\* Navigation axes that are kept.  Some readers drop those of one point.
DropsRows(f) == f.fmt \in {"nordif", "edax_h5", "bruker", "oxford_h5", "edax_binary"}
DropsCols(f) == f.fmt \in {"nordif", "edax_h5", "bruker", "oxford_h5"}
Axes(f) ==
  IF Flat(f) THEN <<[name |-> "x", size |-> Length(f)]>>
  ELSE (IF DropsRows(f) /\ MapShape(f)[1] = 1 THEN <<>>
        ELSE <<[name |-> "y", size |-> MapShape(f)[1]]>>)
    \o (IF DropsCols(f) /\ MapShape(f)[2] = 1 THEN <<>>
        ELSE <<[name |-> "x", size |-> MapShape(f)[2]]>>)

\* Step between points.  dy, dx: as recorded in the file, if they are
HasSteps(f) == \/ f.fmt \in {"edax_h5", "bruker", "oxford_h5"}
               \/ Is(f, "edax_binary", {"v3", "v3nav", "hex"})
               \/ Is(f, "nordif", {"setting", "part"})
               \/ f.fmt = "oxford_binary" /\ ~ Flat(f)
\* One step for both directions
OneStep(f) == f.fmt \in {"nordif", "oxford_binary"}
\* There is a step in an Oxford binary file only if there are two patterns
Steps(f, dy, dx) ==
  LET ax == Axes(f) IN
  [i \in 1..Len(ax) |->
     IF ~ HasSteps(f) \/ (f.fmt = "oxford_binary" /\ N(f) = 1) THEN 1
     ELSE IF OneStep(f) \/ ax[i].name = "x" THEN dx ELSE dy]

------------------------------------------------------------------------------
(* Acquisition and loading *)
Init == /\ \E fmt \in Formats, s \in Shapes : \E opt \in Options[fmt] :
             file = [fmt |-> fmt, opt |-> opt, ny |-> s[1], nx |-> s[2], order |-> <<>>]
        /\ loaded = "no"

Acquire(p) ==
  /\ loaded = "no"
  /\ p \in (0..(N(file) - 1)) \ Stored(file)
  /\ RecordsPosition(file) \/ p = Len(file.order)
  /\ file' = [file EXCEPT !.order = Append(@, p)]
  /\ UNCHANGED loaded

\* An interrupted acquisition can be loaded
Interruptible(f) == \/ RecordsPosition(f)
                    \/ Is(f, "nordif", {"setting", "given"})
                    \/ Is(f, "edax_h5", {"plain"}) \/ Is(f, "bruker", {"plain"})
                    \/ f.fmt = "oxford_h5" \/ Is(f, "edax_binary", {"v1"})
                    \/ Is(f, "directory", {"none"})
Loadable(f) == /\ Len(f.order) > 0
               /\ Len(f.order) = N(f) \/ Interruptible(f)
               /\ Is(f, "nordif", {"part"}) => f.ny > 1
Load == /\ loaded = "no" /\ Loadable(file)
        /\ loaded' = IF Refused(file) THEN "refused" ELSE "yes"
        /\ UNCHANGED file

Next == Load \/ \E p \in 0..(N(file) - 1) : Acquire(p)
Spec == Init /\ [][Next]_vars

ByName(f) == [i \in 1..Len(f.order) |-> i]
TheGrid == Grid(file, ByName(file))
\* A pattern is at one point only
AtOnePoint == loaded = "yes" =>
  \A i, j \in 1..Len(TheGrid) : i # j /\ TheGrid[i] # 0 => TheGrid[i] # TheGrid[j]
\* All patterns are there, unless fewer were asked for
NoneLost == loaded = "yes" /\ file.opt # "part" =>
  \A k \in 1..Len(file.order) : \E i \in 1..Len(TheGrid) : TheGrid[i] = k
\* Patterns in the same row (column) of the map are in the same row (column)
\* of the returned map, in the same order
InRowsAndColumns == loaded = "yes" /\ ~ Flat(file) /\ file.opt # "v3nav" /\ file.opt # "int" =>
  LET nc == MapShape(file)[2]
      pt(i) == file.order[TheGrid[i]]
      row(p) == p \div file.nx
      col(p) == p % file.nx
  IN  \A i, j \in 1..Len(TheGrid) : TheGrid[i] # 0 /\ TheGrid[j] # 0 =>
        /\ ((i - 1) \div nc <= (j - 1) \div nc) <=> (row(pt(i)) <= row(pt(j)))
        /\ ((i - 1) % nc <= (j - 1) % nc) <=> (col(pt(i)) <= col(pt(j)))

------------------------------------------------------------------------------
(* EMsoft master patterns: one image per hemisphere and energy, the energies *)
(* being e0, e0 + de, ...  Asked for: all, a range, or the nearest energy.   *)
Energies(m) == [k \in 1..m.n |-> m.e0 + (k - 1) * m.de]
Abs(x) == IF x < 0 THEN -x ELSE x
Picked(m) ==
  LET e == Energies(m) IN
  CASE m.ask = "all" -> 1..m.n
    [] m.ask = "range" -> {k \in 1..m.n : e[k] >= m.lo /\ e[k] <= m.hi}
    [] OTHER -> {Min({k \in 1..m.n : \A j \in 1..m.n : Abs(e[k] - m.lo) <= Abs(e[j] - m.lo)})}
Hemispheres(m) == CASE m.hemi = "upper" -> <<1>> [] m.hemi = "lower" -> <<2>> [] OTHER -> <<1, 2>>
\* Pairs of hemisphere and energy, in order
Images(m) ==
  LET ks == Sorted(Picked(m)) hs == Hemispheres(m) n == Len(ks)
  IN  [i \in 1..(Len(hs) * n) |-> <<hs[((i - 1) \div n) + 1], ks[((i - 1) % n) + 1]>>]
MPAxes(m) ==
  (IF Len(Hemispheres(m)) = 1 THEN <<>> ELSE <<[name |-> "hemisphere", size |-> 2, scale |-> 1, offset |-> 0]>>)
  \o (IF Cardinality(Picked(m)) = 1 THEN <<>>
      ELSE <<[name |-> "energy", size |-> Cardinality(Picked(m)), scale |-> m.de,
              offset |-> Energies(m)[Min(Picked(m))]]>>)
\* Stereographic projections are stored upside down
Flipped(m) == m.proj = "stereographic"
=============================================================================
