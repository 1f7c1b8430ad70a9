----------------------- MODULE TraceDictionaryIndexing -----------------------
EXTENDS TraceBase, Num
D == INSTANCE DictionaryIndexing WITH MaxD <- 1, MaxScore <- 1, sc <- <<>>, sign <- 1,
       perIter <- 1, keepN <- 1, pos <- 0, best <- <<>>

TInit == <<>>
TStep(s, r) == s

Plus1(m) == [i \in 1..Len(m) |-> m[i] + 1]

\* ---- similarities of integer patterns ----
\* Pixels outside the signal mask, centered for the NCC (times their number)
Kept(p, mask) == SelectSeq([i \in 1..Len(p) |-> <<p[i], mask[i]>>], LAMBDA x : x[2] = 0)
Vec(p, mask, metric) ==
  LET k == Kept(p, mask)
      n == Len(k)
      sum == SumSeq([i \in 1..n |-> k[i][1]])
  IN  [i \in 1..n |-> IF metric = "ncc" THEN n * k[i][1] - sum ELSE k[i][1]]
Dot(a, b) == SumSeq([i \in 1..Len(a) |-> a[i] * b[i]])

\* cos(a, b) > cos(a, c) for the same a, decided exactly
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
SqCmp(n, d) == Sgn(n) * n * n      \* signed square; divide by d
Greater(a, b, c) ==
  Dot(a, b) * Abs(Dot(a, b)) * Dot(c, c) > Dot(a, c) * Abs(Dot(a, c)) * Dot(b, b)

RECURSIVE Newton(_, _)
Newton(x, n) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(y, n)
ISqrt(n) == IF n = 0 THEN 0 ELSE Newton(n \div 2 + 1, n)
\* 1000 * cos(a, b)
Cos1000(a, b) ==
  LET p == Dot(a, a) * Dot(b, b)
      k == IF p < 2000 THEN 1000 ELSE IF p < 200000 THEN 100 ELSE 50
      v == RoundDiv(Abs(Dot(a, b)) * 1000 * k, ISqrt(p * k * k))
  IN  Sgn(Dot(a, b)) * v

IsBestVec(m, e, dv, k) ==
  LET nd == Len(dv)
      kk == MinOf(k, nd)
      in == {m[i] : i \in 1..Len(m)}
  IN  /\ Len(m) = kk
      /\ in \subseteq 1..nd
      /\ Cardinality(in) = kk
      /\ \A i \in 1..(kk - 1) : ~ Greater(e, dv[m[i + 1]], dv[m[i]])
      /\ \A d \in (1..nd) \ in : ~ Greater(e, dv[d], dv[m[kk]])

\* ---- common ----
MapKept(r) ==
  /\ r.is_in_data = [i \in 1..Len(r.mask) |-> 1 - r.mask[i]]
  \* Axes of one point are not represented in a crystal map
  /\ LET long(q) == SelectSeq(q, LAMBDA x : x # 1)
     IN  long(r.map_shape) = long(r.want_shape)
  /\ SeqClose(r.x, r.want_x, 1)
  /\ SeqClose(r.y, r.want_y, 1)

TClauses(s, r) ==
  CASE r.op = "table" ->
         [TopMatches |-> /\ Len(r.si) = Len(r.E)
                         /\ \A i \in 1..Len(r.si) :
                              D!IsBest(Plus1(r.si[i]), r.S[r.E[i] + 1], r.keep, r.sign),
          OwnScores |-> \A i \in 1..Len(r.si) :
                          r.sc[i] = [k \in 1..Len(r.si[i]) |-> r.S[r.E[i] + 1][r.si[i][k] + 1]],
          OwnRotations |-> r.rot = r.si,
          MapPlacement |-> MapKept(r),
          PhaseKept |-> r.phases = r.want_phases]
    [] r.op = "patterns" ->
         LET dv == [d \in 1..Len(r.D) |-> Vec(r.D[d], r.smask, r.metric)]
             ev == [i \in 1..Len(r.P) |-> Vec(r.P[i], r.smask, r.metric)]
         IN  [TopMatches |-> /\ Len(r.si) = Len(r.P)
                             /\ \A i \in 1..Len(r.si) :
                                  IsBestVec(Plus1(r.si[i]), ev[i], dv, r.keep),
              OwnScores |-> \A i \in 1..Len(r.si) :
                              SeqClose(r.sc[i], [k \in 1..Len(r.si[i]) |->
                                         Cos1000(ev[i], dv[r.si[i][k] + 1])], 2),
              OwnRotations |-> r.rot = r.si,
              MapPlacement |-> MapKept(r),
              PhaseKept |-> r.phases = r.want_phases]
=============================================================================
