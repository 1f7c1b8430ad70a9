----------------------------- MODULE Isolation -----------------------------
(***************************************************************************)
(* Ownership of content. The heap maps cells to versions. An object (the   *)
(* signal, an argument, or a returned result) is a set of parts, and each  *)
(* part is a cell. An operation outside of place reads the parts of its    *)
(* operands and returns results of new cells only; changing a part of an   *)
(* object in place changes that object's cell. Therefore no object ever    *)
(* shows a change that was not made to it.                                 *)
(*                                                                         *)
(* Lazy results are promises: their patterns may still follow what they    *)
(* are computed from.                                                      *)
(***************************************************************************)
EXTENDS Num

CONSTANTS Depth, NParts
VARIABLES own,   \* own[o][p]: cell of part p of object o (1: signal, 2: argument, 3..: results)
          heap,  \* cell -> version
          seen,  \* seen[o][p]: version that the owner of o last gave it
          hist
vars == <<own, heap, seen, hist>>

Parts == 1..NParts
Cells(n) == 1..n
Init == /\ own = [o \in 1..2 |-> [p \in Parts |-> (o - 1) * NParts + p]]
        /\ heap = [c \in Cells(2 * NParts) |-> 0]
        /\ seen = [o \in 1..2 |-> [p \in Parts |-> 0]]
        /\ hist = <<>>

\* An operation: a new object of new cells
Call ==
  LET n == Len(heap)
  IN  /\ own' = Append(own, [p \in Parts |-> n + p])
      /\ heap' = heap \o [p \in Parts |-> 0]
      /\ seen' = Append(seen, [p \in Parts |-> 0])
      /\ hist' = Append(hist, [ev |-> "call", o |-> 0, p |-> 0])
\* The user changes part p of object o in place
Touch(o, p) ==
  /\ heap' = [heap EXCEPT ![own[o][p]] = @ + 1]
  /\ seen' = [seen EXCEPT ![o][p] = @ + 1]
  /\ hist' = Append(hist, [ev |-> "touch", o |-> o, p |-> p])
  /\ UNCHANGED own

Next == /\ Len(hist) < Depth
        /\ \/ Call /\ Len(own) < 4
           \/ Len(own) > 2 /\ \E o \in DOMAIN own : \E p \in Parts : Touch(o, p)
Spec == Init /\ [][Next]_vars

NoSharing == \A o1, o2 \in DOMAIN own : \A p1, p2 \in Parts :
               own[o1][p1] = own[o2][p2] => (o1 = o2 /\ p1 = p2)
ContentIsOwn == \A o \in DOMAIN own : \A p \in Parts : heap[own[o][p]] = seen[o][p]

------------------------------------------------------------------------------
(* What an event may change, in terms of observed contents. before, after: *)
(* object name -> part -> digest; lazy: names of lazy objects              *)
Promise(lazy, o, p) == o \in lazy /\ p = "data"
SameBut(before, after, lazy, o, p) ==
  \A x \in DOMAIN before : \A y \in DOMAIN before[x] :
     \/ before[x][y] = after[x][y]
     \/ x = o /\ y = p
     \/ x # o /\ o # "" /\ Promise(lazy, x, y)
=============================================================================
