-------------------------- MODULE MCHoughIndexing --------------------------
EXTENDS HoughIndexing, TLC, Json
PhaseLists == {<<0>>, <<3>>, <<0, 1>>, <<1, 2>>, <<2, 5>>, <<0, 1, 2>>, <<1, 2, 3>>, <<1, 4, 6>>}
Emit == at = 1 => PrintT("@C " \o ToJson([ids |-> ids, sol |-> sol]))
=============================================================================
