---------------------- MODULE TraceDecompositionModel ----------------------
EXTENDS TraceBase
S == INSTANCE DecompositionModel WITH N <- 0, Patterns <- 0, Pixels <- 0, Values <- << >>, MaxCalls <- 0,
       factors <- << >>, loadings <- << >>, orig <- << >>, files <- {}, out <- << >>, hist <- << >>
\* Files in the directory
TInit == [files |-> {}]
Ok(r) == S!Exists(r.kind, r.list, Len(r.factors[1])) /\ r.name # "bad"
TStep(s, r) == IF r.op = "call" /\ r.do = "write" /\ Ok(r) THEN [s EXCEPT !.files = @ \cup {r.name}] ELSE s
Expected(r) == LET m == S!Model(r.factors, r.loadings, S!Chosen(r.kind, r.list, Len(r.factors[1])))
               IN  IF r.mean = << >> THEN m ELSE S!WithMean(m, r.mean)
SeqSet(s) == {s[i] : i \in 1..Len(s)}

Scaling(m, v, top) == \A i \in 1..Len(m) : \A j \in 1..Len(m[i]) : S!Scaled(m, m[i][j], v[i][j], top)

CallClauses(s, r) ==
  LET ok == Ok(r)
      done == ok /\ r.err = ""
      w == done /\ r.do = "write"
      m == Expected(r)
  IN [
   Outcome |-> (r.err = "") = ok,
   \* Nothing the user has is changed, also after a failure
   LearningKept |-> r.learning,
   PatternsKept |-> r.patterns,
   Files |-> SeqSet(r.files) = TStep(s, r).files,
   Sum |-> (done /\ r.do = "model") => r.values = m,
   Written |-> w => \/ Scaling(m, r.values, r.top)
                    \/ r.mean # << >> /\ Scaling(S!Model(r.factors, r.loadings, S!Chosen(r.kind, r.list, Len(r.factors[1]))), r.values, r.top),
   \* The mean pattern (or pattern means) subtracted before decomposition is part of the model
   MeanWritten |-> (w /\ r.mean # << >>) => Scaling(m, r.values, r.top),
   Same |-> done => r.shape = r.shape0 /\ r.class = (IF r.do = "write" THEN "EBSD" ELSE r.class0),
   \* A model has what the signal has, and no learning results
   Rest |-> (done /\ r.do = "model") => r.xmap /\ r.detector /\ r.background /\ r.none /\ r.own,
   Type |-> done => r.dtype = r.dtype0
  ]
\* Real decompositions
RealClauses(r) == [
   \* All components give the patterns back
   Complete |-> r.err_all =< 3,
   \* More components are never a worse approximation
   Closer |-> \A k \in 1..(Len(r.errs) - 1) : r.errs[k + 1] =< r.errs[k] + 1,
   \* Parts of the model add up
   Additive |-> r.additive =< 3,
   LearningKept |-> r.learning,
   Class |-> r.class = r.class0
  ]
TClauses(s, r) == IF r.op = "call" THEN CallClauses(s, r) ELSE RealClauses(r)
=============================================================================
