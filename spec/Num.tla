-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Integer helpers.  Reals of the implementation are logged as scaled      *)
(* integers; NaNVal stands for NaN, and infinities are clipped to +-Big.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions

NaNVal == 1000000007
Big    == 1000000000

Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b, tol) == Abs(a - b) <= tol
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b

\* Sum of a sequence of integers
SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA x, y : IF y > x THEN y ELSE x, s[1], s)
MinSeq(s) == FoldLeft(LAMBDA x, y : IF y < x THEN y ELSE x, s[1], s)
ProdSeq(s) == FoldLeft(LAMBDA x, y : x * y, 1, s)

SeqClose(a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : Close(a[i], b[i], tol)

SeqSeqClose(a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : SeqClose(a[i], b[i], tol)

\* Division rounded to the nearest integer, for n >= 0 and d > 0
RoundDiv(n, d) == (2 * n + d) \div (2 * d)

Range0(n) == 0..(n - 1)
IsEven(n) == n % 2 = 0
Reverse2(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
=============================================================================
