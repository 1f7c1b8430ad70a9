--------------------------- MODULE MCMovingScreen ---------------------------
EXTENDS MovingScreen, TLC, Json
Offsets2 == (-2..2) \X (-2..2)
Center == <<31, 23>>
Emit == Len(picked) = MaxFeatures =>
  PrintT("@C " \o ToJson([near |-> [i \in DOMAIN picked |-> Near(picked[i])],
                          far |-> [i \in DOMAIN picked |-> Far(picked[i])], d |-> d, e |-> e]))
=============================================================================
