------------------------ MODULE TraceDetectorViews ------------------------
(***************************************************************************)
(* One record per event.  r.ref is the state whose views, drawn afresh,    *)
(* the figures' views are compared to.                                     *)
(***************************************************************************)
EXTENDS TraceBase

V == INSTANCE DetectorViews WITH
       Attrs <- {"d1", "d2"}, Angles <- {"r1"}, FigBoxes <- {"b1", "b2"}, SharedBoxes <- {"s1", "s2"},
       Vals <- {1, 2, 3}, MaxFigs <- 2, MaxEvents <- 9, s <- st, hist <- << >>
TInit == [none |-> TRUE]
Now(s, r) == V!Apply(IF r.first THEN V!Start(r.inplace) ELSE s, r.e)
TStep(s, r) == Now(s, r)
All(seq) == \A i \in DOMAIN seq : seq[i]
TClauses(s, r) ==
  LET n == Now(s, r)
  IN  [ReferenceIsState |-> r.ref = n,
       Figures |-> Len(r.side) = Len(n.figs),
       SideView |-> All(r.side),
       TopView |-> All(r.top),
       DetectorView |-> All(r.detector),
       Pattern |-> All(r.pattern),
       Bands |-> All(r.bands),
       ZoneAxes |-> All(r.axes),
       UserDetector |-> r.user = n.user,
       UserPC |-> r.pcs]
===========================================================================
