--------------------------- MODULE RefinementJobs ---------------------------
(***************************************************************************)
(* Refinements set up, computed and computed again in any order, and       *)
(* computed by threads that take turns in any order.                       *)
(*                                                                         *)
(* A job is a refinement with arguments of its own. Making it copies what  *)
(* it needs of its arguments; running it optimizes with that and nothing   *)
(* else. Now is making and running in one call.                            *)
(***************************************************************************)
EXTENDS Num

CONSTANTS Jobs, MaxLen, Steps, MaxPoints
VARIABLES hist, cell, seen, turn, left
vars == <<hist, cell, seen, turn, left>>

None == 0
Init == /\ hist = <<>>
        /\ cell = [j \in Jobs |-> None]
        /\ seen = [j \in Jobs |-> {}]
        /\ turn = <<>>
        /\ left = [j \in Jobs |-> Steps]

Act(a, j) == hist' = Append(hist, [a |-> a, j |-> j])
Make(j) == /\ cell[j] = None
           /\ cell' = [cell EXCEPT ![j] = j]
           /\ UNCHANGED seen /\ Act("make", j)
Run(j) == /\ cell[j] # None
          /\ seen' = [seen EXCEPT ![j] = @ \cup {cell[j]}]
          /\ UNCHANGED cell /\ Act("run", j)
Now(j) == /\ seen' = [seen EXCEPT ![j] = @ \cup {j}]
          /\ UNCHANGED cell /\ Act("now", j)
Serial == /\ turn = <<>> /\ Len(hist) < MaxLen
          /\ \E j \in Jobs : Make(j) \/ Run(j) \/ Now(j)
          /\ UNCHANGED <<turn, left>>

\* Both jobs made, two threads take turns of one optimization step each
Thread == /\ \A j \in Jobs : cell[j] # None
          /\ \A i \in DOMAIN hist : hist[i].a = "make"
          /\ \E j \in Jobs : /\ left[j] > 0
                             /\ left' = [left EXCEPT ![j] = @ - 1]
                             /\ turn' = Append(turn, j)
                             /\ seen' = [seen EXCEPT ![j] = @ \cup {cell[j]}]
          /\ UNCHANGED <<hist, cell>>
Next == Serial \/ Thread
Spec == Init /\ [][Next]_vars

\* Whatever the order, a job has only met its own arguments
Isolated == \A j \in Jobs : seen[j] \subseteq {j}

\* The points of one refinement, taken in chunks: each is a job of its own
Chunked(n, c) == [i \in 1..((n + c - 1) \div c) |->
                    { k \in 1..n : ((k - 1) \div c) + 1 = i }]
Maps == [n : 2..MaxPoints, c : 1..MaxPoints]
EachOnce == \A m \in Maps : \A k \in 1..m.n :
   Cardinality({ i \in DOMAIN Chunked(m.n, m.c) : k \in Chunked(m.n, m.c)[i] }) = 1
===========================================================================
