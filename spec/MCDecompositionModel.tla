----------------------- MODULE MCDecompositionModel -----------------------
EXTENDS DecompositionModel, TLC, Json
MCValues == <<3, -2, 0, 1, -3, 2, 5>>
Emit == Len(hist) = MaxCalls => PrintT("@C " \o ToJson([factors |-> factors, loadings |-> loadings, hist |-> hist]))
=============================================================================
