----------------------------- MODULE MCReaders -----------------------------
EXTENDS Readers, Json
\* Every file that can be loaded
Emitted == (loaded' # "no" => PrintT("@C " \o ToJson(file')))
MCNext == Next /\ Emitted
MCSpec == Init /\ [][MCNext]_vars
Small == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<2, 3>>}
Large == Small \cup {<<3, 2>>, <<1, 5>>, <<5, 1>>}
=============================================================================
