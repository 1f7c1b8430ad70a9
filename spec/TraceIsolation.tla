--------------------------- MODULE TraceIsolation ---------------------------
EXTENDS TraceBase, SequencesExt
S == INSTANCE Isolation WITH Depth <- 0, NParts <- 0, own <- <<>>, heap <- <<>>,
       seen <- <<>>, hist <- <<>>

(***************************************************************************)
(* The state is the content of every object as last observed. A record     *)
(* is a call (the objects' contents after it, results included) or a       *)
(* change in place of one part of one object.                              *)
(***************************************************************************)
TInit == [objs |-> <<>>]
TStep(s, r) == [objs |-> r.objs]

TClauses(s, r) ==
  IF r.op = "start" THEN [Start |-> TRUE]
  ELSE
    LET b == s.objs
        lz == ToSet(r.lazy)
        old == DOMAIN b
        \* Earlier results and operands, as two obligations
        ops == [x \in {y \in old : y \notin ToSet(r.results)} |-> b[x]]
        res == [x \in {y \in old : y \in ToSet(r.results)} |-> b[x]]
    IN  IF r.op = "call"
        THEN [OperandsKept |-> S!SameBut(ops, r.objs, lz, "", ""),
              EarlierResultsKept |-> S!SameBut(res, r.objs, lz, "", ""),
              AllObserved |-> old \subseteq DOMAIN r.objs]
        ELSE [OperandsOwnContent |-> S!SameBut(ops, r.objs, lz, r.o, r.p),
              ResultsOwnContent |-> S!SameBut(res, r.objs, lz, r.o, r.p)]
=============================================================================
