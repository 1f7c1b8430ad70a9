------------------------- MODULE TraceMasterHistory -------------------------
(***************************************************************************)
(* Real master patterns after each step of a history.  r.all has what each *)
(* of the signals made so far says it is, in the order they were made;     *)
(* r.images the intensities of their images, r.seen those in patterns      *)
(* simulated from the signal the step made or changed, of each energy.     *)
(***************************************************************************)
EXTENDS TraceBase
M == INSTANCE MasterHistory WITH MaxOps <- 0, Full <- 7, sigs <- <<>>, hist <- <<>>

TInit == <<>>    \* The signals
TStep(s, r) == IF r.op = "start" THEN <<r.signal>>
               ELSE IF r.op = "step" THEN M!After(s, r.k, r.o) ELSE s

Which(s, r) == LET a == TStep(s, r) IN IF r.op = "step" /\ M!InPlace(r.o) THEN r.k ELSE Len(a)

\* The number of energy n of the energies of the axis, 5 keV apart from 10 keV
KeV(n) == 10 + 5 * (n - 1)
TClauses(s, r) ==
  LET a == TStep(s, r)
      w == Which(s, r)
      x == a[w]
      ne == Len(x.en)
  IN  [
   Possible |-> r.op = "step" => M!Possible(s, r.k, r.o),
   SignalCount |-> Len(r.all) = Len(a),
   Hemisphere |-> \A k \in DOMAIN a : r.all[k].hemisphere = M!Says(a[k]),
   Projection |-> \A k \in DOMAIN a : r.all[k].projection = a[k].proj,
   PhaseName |-> \A k \in DOMAIN a : r.all[k].phase = a[k].phase,
   SignalClass |-> \A k \in DOMAIN a : r.all[k].cls = a[k].cls,
   Laziness |-> \A k \in DOMAIN a : r.all[k].lazy = a[k].lazy,
   DataType |-> \A k \in DOMAIN a : r.all[k].dt = a[k].dt,
   Axes |-> \A k \in DOMAIN a :
     r.all[k].axes = (IF a[k].hax THEN <<"hemisphere">> ELSE <<>>)
                       \o (IF a[k].eax THEN <<"energy">> ELSE <<>>) \o <<"height", "width">>,
   Energies |-> \A k \in DOMAIN a :
     r.all[k].energies = (IF a[k].eax THEN [e \in DOMAIN a[k].en |-> KeV(a[k].en[e])] ELSE <<>>),
   Shape |-> \A k \in DOMAIN a :
     r.all[k].shape = (IF a[k].hax THEN <<Len(a[k].hemi)>> ELSE <<>>)
                        \o (IF a[k].eax THEN <<Len(a[k].en)>> ELSE <<>>) \o <<a[k].n, a[k].n>>,
   \* Rows of images: hemispheres, columns: energies
   Images |-> r.images = [k \in DOMAIN a |->
     [h \in DOMAIN a[k].hemi |-> [e \in DOMAIN a[k].en |-> M!Value(a[k], a[k].hemi[h], a[k].en[e])]]],
   \* Patterns of directions in the upper and lower hemispheres, for each
   \* energy held, and, last, for none asked for
   SeenImages |->
     \A k \in DOMAIN r.seen :
       LET e == IF k = Len(r.seen) THEN x.en[ne] ELSE x.en[k]
       IN  r.seen[k] = <<M!Seen(x, "upper", e), M!Seen(x, "lower", e)>>,
   SeenAll |-> (x.cls = "EBSD" /\ x.proj = "lambert") => Len(r.seen) = ne + 1
  ]
=============================================================================
