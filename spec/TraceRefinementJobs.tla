------------------------ MODULE TraceRefinementJobs ------------------------
EXTENDS TraceBase, Num
TInit == <<>>
TStep(s, r) == s
\* r.rows: what a job gave in its history; r.ref: what it gives by itself
TClauses(s, r) ==
  [LikeByItself |-> r.rows = r.ref,
   Finishes |-> r.finished]
===========================================================================
