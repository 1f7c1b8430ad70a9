-------------------------------- MODULE Merge --------------------------------
(***************************************************************************)
(* Merging single-phase crystal maps into one multi-phase map.             *)
(*                                                                         *)
(* sc[k][p] is the sequence of scores of map k in point p, or <<>> where   *)
(* map k is masked out; ind[k][p] is 1 where map k indexed the point.      *)
(***************************************************************************)
EXTENDS Num

Available(sc, ind, k, p) == Len(sc[k][p]) > 0 /\ ind[k][p] = 1

\* Comparing sums of the nb first scores compares their means
Value(sc, k, p, nb) == SumSeq(SubSeq(sc[k][p], 1, MinOf(nb, Len(sc[k][p]))))

Candidates(sc, ind, p) == {k \in 1..Len(sc) : Available(sc, ind, k, p)}

Winners(sc, ind, p, nb, sign) ==
  LET c == Candidates(sc, ind, p)
  IN  {k \in c : \A j \in c :
         IF sign = 1 THEN Value(sc, k, p, nb) >= Value(sc, j, p, nb)
                     ELSE Value(sc, k, p, nb) <= Value(sc, j, p, nb)}

\* All scores of all maps in a point, best first
Flat(sc, p) == FlattenSeq([k \in 1..Len(sc) |-> sc[k][p]])
Sorted(s, sign) == SortSeq(s, LAMBDA a, b : IF sign = 1 THEN a > b ELSE a < b)

------------------------------------------------------------------------------
(* The phase list is built map by map.  kind[k] names the phase of map k;   *)
(* maps may share a phase.  A map that wins no point adds nothing.          *)

CONSTANTS MaxK, MaxM, MaxS
VARIABLES kind, win, k, list, pid
vars == <<kind, win, k, list, pid>>

Ks == 1..MaxK
Ms == 1..MaxM
Init ==
  /\ kind \in [Ks -> 1..2]
  /\ win \in [Ms -> 0..MaxK]             \* winning map, 0 if not indexed
  /\ k = 1
  /\ list = <<>>                         \* kinds in the order of their ids
  /\ pid = [p \in Ms |-> IF win[p] = 0 THEN -1 ELSE win[p] - 1]

IndexOf(l, x) == CHOOSE i \in 1..Len(l) : l[i] = x

AddPhase ==
  /\ k <= MaxK
  /\ k' = k + 1
  /\ LET mine == {p \in Ms : pid[p] = k - 1 /\ win[p] = k}
     IN  IF mine = {} THEN UNCHANGED <<list, pid>>
         ELSE LET l2 == IF \E i \in 1..Len(list) : list[i] = kind[k] THEN list
                        ELSE Append(list, kind[k])
              IN  /\ list' = l2
                  /\ pid' = [p \in Ms |-> IF p \in mine THEN IndexOf(l2, kind[k]) - 1
                                          ELSE pid[p]]
  /\ UNCHANGED <<kind, win>>
Next == AddPhase
Spec == Init /\ [][Next]_vars

\* Ids given so far never collide with the indices of maps still to come,
\* and in the end denote the phase of the winning map
IdsSafe == \A p \in Ms : win[p] # 0 /\ win[p] < k => pid[p] <= win[p] - 1
IdsDenotePhases ==
  k > MaxK => \A p \in Ms :
     IF win[p] = 0 THEN pid[p] = -1 ELSE list[pid[p] + 1] = kind[win[p]]
=============================================================================
