------------------------- MODULE MCRefinementJobs -------------------------
EXTENDS RefinementJobs, TLC, Json
\* Histories that end in the computation of every job, or a full schedule
Ends == /\ turn = <<>> /\ Len(hist) = MaxLen
        /\ \A j \in Jobs : seen[j] # {}
Emit == /\ (hist = <<>> /\ turn = <<>>) =>
              \A m \in Maps : PrintT("@C " \o ToJson([kind |-> "points", n |-> m.n, c |-> m.c]))
        /\ Ends => PrintT("@C " \o ToJson([kind |-> "history", hist |-> hist]))
        /\ (turn # <<>> /\ \A j \in Jobs : left[j] = 0 /\ hist[1].j = 1) =>
              PrintT("@C " \o ToJson([kind |-> "threads", turn |-> turn]))
===========================================================================
