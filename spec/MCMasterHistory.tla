-------------------------- MODULE MCMasterHistory --------------------------
EXTENDS MasterHistory, TLC, Json
VARIABLE start
MCInit == Init /\ start = sigs[1]
MCNext == Next /\ UNCHANGED start
MCSpec == MCInit /\ [][MCNext]_<<vars, start>>
Emit == Len(hist) = MaxOps =>
          PrintT("@C " \o ToJson([start |-> start, hist |-> hist]))
=============================================================================
