------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers beyond TLC's 32 bits: sequences of digits of base 1000, *)
(* the least significant first.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE BNat(_), BCarry(_, _), BTrim(_), BLessEq(_, _)
BNat(n) == IF n < 1000 THEN <<n>> ELSE <<n % 1000>> \o BNat(n \div 1000)
BTrim(a) == IF Len(a) > 1 /\ a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
BCarry(a, c) == IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE BNat(c))
                ELSE <<(a[1] + c) % 1000>> \o BCarry(Tail(a), (a[1] + c) \div 1000)
RECURSIVE BSumTo(_, _, _, _)
BSumTo(a, b, k, i) ==
  IF i > Len(a) THEN 0
  ELSE (IF k + 1 - i \in 1..Len(b) THEN a[i] * b[k + 1 - i] ELSE 0) + BSumTo(a, b, k, i + 1)
BMul(a, b) == BTrim(BCarry([k \in 1..(Len(a) + Len(b) - 1) |-> BSumTo(a, b, k, 1)], 0))
BAdd(a, b) ==
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      D(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
  IN  BTrim(BCarry([k \in 1..n |-> D(a, k) + D(b, k)], 0))
\* a <= b, both trimmed
BLessEq(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE \/ a = b
       \/ LET k == CHOOSE i \in 1..Len(a) : a[i] # b[i] /\ \A j \in (i + 1)..Len(a) : a[j] = b[j]
          IN  a[k] < b[k]
=============================================================================
