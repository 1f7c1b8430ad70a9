--------------------------- MODULE HoughIndexing ---------------------------
(***************************************************************************)
(* Hough indexing: the indexer answers each pattern with one solution per  *)
(* phase and a best one, all of which name a phase by its position in the  *)
(* indexer's list (from 0), or -1 where nothing was found.  Patterns are   *)
(* given to the indexer in the order of the points of the map.  The map    *)
(* names phases by their ids in the phase list.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Lists, MaxN
VARIABLES ids, sol, at, map
vars == <<ids, sol, at, map>>
IdOf(l, s) == IF s = -1 THEN -1 ELSE l[s + 1]

Init == /\ ids \in Lists
        /\ \E n \in 1..MaxN : sol \in [1..n -> -1..(Len(ids) - 1)]
        /\ at = 1 /\ map = <<>>
Place == /\ at <= Len(sol)
         /\ map' = Append(map, IdOf(ids, sol[at]))
         /\ at' = at + 1
         /\ UNCHANGED <<ids, sol>>
Next == Place
Spec == Init /\ [][Next]_vars
OwnSolution == \A i \in DOMAIN map : map[i] = IdOf(ids, sol[i])
NotIndexed == \A i \in DOMAIN map : (map[i] = -1) = (sol[i] = -1)
OnePhase == \A i, j \in DOMAIN map : (map[i] = map[j]) = (sol[i] = sol[j])

\* Coordinates of point i (from 1) of a map with row length nx, steps dy, dx
RowOf(i, nx) == (i - 1) \div nx
ColOf(i, nx) == (i - 1) % nx
=============================================================================
