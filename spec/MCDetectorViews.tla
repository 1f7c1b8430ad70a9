------------------------- MODULE MCDetectorViews -------------------------
EXTENDS DetectorViews, TLC, Json
Emit == (Len(hist) = MaxEvents /\ hist[1].e.do = "show") =>
           PrintT("@C " \o ToJson([inplace |-> s.inplace, hist |-> hist]))
Shown == Len(hist) > 0 => hist[1].e.do = "show"
==========================================================================
