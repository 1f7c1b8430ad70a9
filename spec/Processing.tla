----------------------------- MODULE Processing -----------------------------
(***************************************************************************)
(* Pattern processing on a signal, in place or out of place, lazily or     *)
(* not. A method is a function F of the patterns. The state is the         *)
(* patterns in the signal (the sequence of functions applied), whether     *)
(* the signal is lazy, and the signal returned last.                       *)
(*                                                                         *)
(* A call: inplace, lo (lazy_output: "none", "true", "false").             *)
(***************************************************************************)
EXTENDS Num

Refused(c) == c.inplace /\ c.lo = "true"
OutLazy(lazy, c) == IF c.lo = "none" THEN lazy ELSE c.lo = "true"

\* (Whether a signal changed in place with lo = "false" is still lazy afterwards
\* is left open in conformance checking: the methods differ.)
\* Signal s after call c of method m
Self(s, c, m) == IF c.inplace /\ ~Refused(c) 
                 THEN [v |-> Append(s.v, m), lazy |-> s.lazy] ELSE s
\* What call c of m on s returns
Out(s, c, m) == IF c.inplace THEN [has |-> FALSE]
                ELSE [has |-> TRUE, v |-> Append(s.v, m), lazy |-> OutLazy(s.lazy, c)]

------------------------------------------------------------------------------
CONSTANTS Methods, Depth, ChunkKinds
VARIABLES start, sig, hist
vars == <<start, sig, hist>>

Calls == [inplace : BOOLEAN, lo : {"none", "true", "false"}, m : Methods,
          take : BOOLEAN]   \* take: go on with what was returned
Init == /\ start \in [lazy : BOOLEAN, chunk : ChunkKinds, nd : 0..2]
        /\ (~start.lazy => start.chunk = "whole")
        /\ (start.nd = 0 => start.chunk = "whole")
        /\ sig = [v |-> <<>>, lazy |-> start.lazy] /\ hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E c \in Calls :
       /\ (c.take => ~c.inplace)
       /\ LET o == Out(sig, c, c.m)
          IN  sig' = IF c.take THEN [v |-> o.v, lazy |-> o.lazy] ELSE Self(sig, c, c.m)
       /\ hist' = Append(hist, c)
  /\ UNCHANGED start
Spec == Init /\ [][Next]_vars

\* The signal holds the methods taken in place or with their result, in order
Taken(c) == c.take \/ (c.inplace /\ c.lo # "true")
OnlyTaken == sig.v = [i \in 1..Len(SelectSeq(hist, Taken)) |-> SelectSeq(hist, Taken)[i].m]
\* Laziness changes only by a call that asked for it
LazyOnlyAsked == (\A i \in DOMAIN hist : ~(Taken(hist[i]) /\ hist[i].lo # "none")) => sig.lazy = start.lazy
=============================================================================
