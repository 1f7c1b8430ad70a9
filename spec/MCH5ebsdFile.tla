---------------------------- MODULE MCH5ebsdFile ----------------------------
EXTENDS H5ebsdFile, Json
MCAnswers == {<<>>, <<"y">>, <<"n">>, <<"n", "y">>, <<"x", "Y">>, <<"y", "2">>, <<"2">>,
              <<"x", "10">>, <<"y", "1">>, <<"EOF">>, <<"n", "EOF">>, <<"y", "x", "EOF">>}
MCNumOf == [x \in {"1", "2", "10"} |-> CASE x = "1" -> 1 [] x = "2" -> 2 [] OTHER -> 10]
\* Every transition out of every state of the file, each with one history to it
Emitted == PrintT("@C " \o ToJson(hist'))
MCNext == Next /\ Emitted
MCSpec == Init /\ [][MCNext]_vars
=============================================================================
