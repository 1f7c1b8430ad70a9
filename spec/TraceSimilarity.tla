--------------------------- MODULE TraceSimilarity ---------------------------
EXTENDS TraceBase, Num, BigNat
S == INSTANCE Similarity WITH Len0 <- 1, Vals <- {}, Gains <- {}, Offsets <- {}, x <- <<>>,
                              y <- <<>>, mask <- <<>>, step <- <<>>
TInit == <<>>
TStep(s, r) == s

\* 10000 Num / sqrt(D) is in [lo, hi]; sign and square compared
AtLeast(n, D, lo) ==
  IF lo <= 0 THEN n >= 0 \/ BLessEq(BMul(BMul(BNat(-n), BNat(-n)), BNat(100000000)),
                                   BMul(BMul(BNat(-lo), BNat(-lo)), D))
  ELSE n > 0 /\ BLessEq(BMul(BMul(BNat(lo), BNat(lo)), D),
                        BMul(BMul(BNat(n), BNat(n)), BNat(100000000)))
IsScore(s, metric, a, b) ==
  LET n == S!Num2(metric, a, b)
      D == BMul(BNat(S!Den(metric, a)), BNat(S!Den(metric, b)))
  IN  AtLeast(n, D, s - 3) /\ AtLeast(-n, D, -s - 3)

\* Positions of the patterns that are not left out
RECURSIVE Kept(_, _)
Kept(m, i) == IF i > Len(m) THEN <<>> ELSE (IF m[i] THEN <<>> ELSE <<i>>) \o Kept(m, i + 1)

ScoreClauses(r) ==
  LET kept == Kept(r.navmask, 1)
      X(i) == S!Keep(r.exp[kept[i]], r.sigmask)
      Y(j) == S!Keep(r.sim[j], r.sigmask)
  IN [
   Shape |-> Len(r.scores) = Len(kept) /\ \A i \in DOMAIN r.scores : Len(r.scores[i]) = Len(r.sim),
   Score |-> \A i \in DOMAIN r.scores : \A j \in DOMAIN r.sim :
     IsScore(r.scores[i][j], r.metric, X(i), Y(j)),
   AtMostOne |-> \A i \in DOMAIN r.scores : \A j \in DOMAIN r.sim :
     r.scores[i][j] \in -10001..10001,
   DataType |-> r.dtype = r.dtype0,
   InputsKept |-> r.kept
  ]

QualityClauses(r) ==
  LET m == S!Mags(r.pattern, r.normalize)
      w == IF r.weights = <<>> THEN S!Weights(Len(r.pattern), Len(r.pattern[1])) ELSE r.weights
      wt == S!Total(w)
      n == Len(r.pattern) * Len(r.pattern[1])
      \* 1 - (Weighted / Total) / (wt / n), or the given largest inertia
      num == IF r.largest = 0 THEN S!Weighted(m, w) * n ELSE S!Weighted(m, w)
      den == IF r.largest = 0 THEN S!Total(m) * wt ELSE S!Total(m) * r.largest
  IN [
   \* to 1 / 1000
   Quality |-> Abs((1000 - r.quality \div 100) * den - 1000 * num) <= 2 * den,
   Everywhere |-> \A v \in DOMAIN r.others : Close(r.others[v], r.quality, 5)
  ]
MapClauses(r) ==
  [
   Shape |-> r.shape = r.shape0,
   OwnQuality |-> \A i \in DOMAIN r.alone : Close(r.map[i], r.alone[i], 5),
   GainOffset |-> \A i \in DOMAIN r.alone : Close(r.scaled[i], r.alone[i], 20),
   AtMostOne |-> \A i \in DOMAIN r.map : r.map[i] <= 100001,
   DataType |-> r.dtype = "float32",
   InputsKept |-> r.kept
  ]
RefusedClauses(r) == [Refused |-> r.error = r.want]

TClauses(s, r) ==
  CASE r.op = "scores" -> ScoreClauses(r)
    [] r.op = "quality" -> QualityClauses(r)
    [] r.op = "map" -> MapClauses(r)
    [] r.op = "refused" -> RefusedClauses(r)
=============================================================================
