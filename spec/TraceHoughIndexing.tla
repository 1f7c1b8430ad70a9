------------------------- MODULE TraceHoughIndexing -------------------------
EXTENDS TraceBase, Num
H == INSTANCE HoughIndexing WITH Lists <- {}, MaxN <- 1, ids <- <<>>, sol <- <<>>, at <- 1,
                                 map <- <<>>
TInit == <<>>
TStep(s, r) == s

Steps(r) == IF Len(r.nav) = 2 THEN r.steps
            ELSE IF Len(r.nav) = 1 THEN <<0, r.steps[1]>> ELSE <<0, 0>>
Nx(r) == IF r.nav = <<>> THEN 1 ELSE r.nav[Len(r.nav)]
Ny(r) == IF Len(r.nav) = 2 THEN r.nav[1] ELSE 1
\* A length of one has no extent
D(n, d) == IF n = 1 THEN 0 ELSE d

\* r.sol[i]: [p: position of the phase, rot, fit, cm, pq, nmatch]: what the
\* indexer answers for the pattern of point i
MapClauses(r) ==
  [
   OnePointEach |-> Len(r.got) = Len(r.sol),
   PhaseName |-> \A i \in DOMAIN r.sol :
     r.got[i].name = (IF r.sol[i].p = -1 THEN "not_indexed" ELSE r.names[r.sol[i].p + 1]),
   PhaseId |-> \A i \in DOMAIN r.sol : r.got[i].id = H!IdOf(r.ids, r.sol[i].p),
   Indexed |-> \A i \in DOMAIN r.sol : r.got[i].indexed = (r.sol[i].p # -1),
   OwnRotation |-> \A i \in DOMAIN r.sol :
     r.got[i].rot = (IF r.sol[i].p = -1 THEN 0 ELSE r.sol[i].rot),
   OwnProperties |-> \A i \in DOMAIN r.sol :
     /\ r.got[i].fit = r.sol[i].fit /\ r.got[i].cm = r.sol[i].cm
     /\ r.got[i].pq = r.sol[i].pq /\ r.got[i].nmatch = r.sol[i].nmatch,
   Coordinates |-> \A i \in DOMAIN r.sol :
     /\ r.got[i].x = H!ColOf(i, Nx(r)) * D(Nx(r), Steps(r)[2])
     /\ r.got[i].y = H!RowOf(i, Nx(r)) * D(Ny(r), Steps(r)[1]),
   Shape |-> r.shape = (IF Ny(r) > 1 /\ Nx(r) > 1 THEN <<Ny(r), Nx(r)>>
                        ELSE IF Ny(r) > 1 THEN <<Ny(r)>>
                        ELSE IF Nx(r) > 1 THEN <<Nx(r)>> ELSE <<>>),
   Unit |-> r.unit = r.unit0,
   InputsKept |-> r.kept,
   Returned |-> r.returned,
   Chunks |-> r.chunksize <= Len(r.sol) /\ r.chunksize <= r.chunksize0
  ]

PcClauses(r) ==
  [
   Shape |-> r.shape = (IF ~r.batch THEN <<1>> ELSE IF r.nav = <<>> THEN <<1>> ELSE r.nav),
   OwnPc |-> IF r.batch THEN r.got = r.codes ELSE r.got = <<r.pc0>>,
   Guess |-> r.start = r.pc0,
   Detector |-> r.rest
  ]

IndexerClauses(r) ==
  [
   ProjectionCenters |-> r.pc = r.pc0,
   DetectorShape |-> r.sig = r.sig0,
   Tilts |-> r.tilts = r.tilts0,
   Vendor |-> r.vendor = "kikuchipy",
   Bands |-> r.bands = r.bands0,
   Phases |-> r.phases = r.phases0
  ]

RealClauses(r) ==
  [
   \* What the point's pattern gives when indexed alone
   AsAlone |-> \A i \in DOMAIN r.source :
     /\ r.name[i] = r.alone[r.source[i]].name
     /\ Close(r.fit[i], r.alone[r.source[i]].fit, 20)
     /\ r.angle[i] <= 20
  ]

TClauses(s, r) ==
  CASE r.op = "map" -> MapClauses(r)
    [] r.op = "pc" -> PcClauses(r)
    [] r.op = "indexer" -> IndexerClauses(r)
    [] r.op = "real" -> RealClauses(r)
    [] r.op = "refused" -> [Refused |-> r.error = r.want]
=============================================================================
