------------------------- MODULE DictionaryIndexing -------------------------
(***************************************************************************)
(* Dictionary indexing keeps, for every experimental pattern, the keepN    *)
(* best matches among all dictionary patterns.  The implementation goes    *)
(* through the dictionary in chunks of perIter patterns and merges the     *)
(* best of each chunk into a running list.                                 *)
(*                                                                         *)
(* score[d] is the score of dictionary pattern d (1..D), sign 1 means that *)
(* greater is better and -1 that lower is better.                          *)
(***************************************************************************)
EXTENDS Num

Better(a, b, sign) == IF sign = 1 THEN a > b ELSE a < b

\* The match list m, a sequence of dictionary indices, is a correct answer
\* for k matches with score table sc
IsBest(m, sc, k, sign) ==
  LET D == Len(sc)
      kk == MinOf(k, D)
      in == {m[i] : i \in 1..Len(m)}
  IN  /\ Len(m) = kk
      /\ in \subseteq 1..D
      /\ Cardinality(in) = kk                                \* no duplicates
      /\ \A i \in 1..(kk - 1) : ~ Better(sc[m[i + 1]], sc[m[i]], sign) \* sorted
      /\ kk > 0 => \A d \in (1..D) \ in : ~ Better(sc[d], sc[m[kk]], sign)

------------------------------------------------------------------------------
CONSTANTS MaxD, MaxScore
VARIABLES sc, sign, perIter, keepN, pos, best
vars == <<sc, sign, perIter, keepN, pos, best>>

Init ==
  /\ sc \in UNION {[1..D -> 0..MaxScore] : D \in 1..MaxD}
  /\ sign \in {1, -1}
  /\ perIter \in 1..MaxD
  /\ perIter <= Len(sc)
  /\ keepN \in 1..MaxD
  /\ keepN <= Len(sc)
  /\ pos = 0
  /\ best = <<>>

\* A stable order by score: one of the orders the implementation may produce
RECURSIVE Ranked(_, _)
Ranked(S, s) ==
  IF S = {} THEN <<>>
  ELSE LET b == CHOOSE d \in S : \A e \in S :
                  ~ Better(sc[e], sc[d], s) /\ (sc[e] = sc[d] => d <= e)
       IN  <<b>> \o Ranked(S \ {b}, s)

TakeFirst(q, k) == SubSeq(q, 1, MinOf(k, Len(q)))

MatchChunk ==
  /\ pos < Len(sc)
  /\ LET end   == MinOf(pos + perIter, Len(sc))
         chunk == TakeFirst(Ranked((pos + 1)..end, sign), keepN)
         all   == {best[i] : i \in 1..Len(best)} \cup {chunk[i] : i \in 1..Len(chunk)}
     IN  /\ best' = TakeFirst(Ranked(all, sign), keepN)
         /\ pos' = end
  /\ UNCHANGED <<sc, sign, perIter, keepN>>

Next == MatchChunk
Spec == Init /\ [][Next]_vars

\* At any time the running list is the answer for the part that was seen,
\* so that the answer in the end does not depend on perIter
RunningBest == IsBest(best, SubSeq(sc, 1, pos), keepN, sign)
=============================================================================
