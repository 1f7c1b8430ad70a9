-------------------------- MODULE MCGeometricalSim --------------------------
EXTENDS GeometricalSim, TLC, Json, SequencesExt
Index2 == {<<0, 0, 1>>, <<1, 0, 0>>, <<0, -1, 0>>, <<1, 1, 0>>, <<1, 0, -1>>, <<1, 1, 1>>, <<-1, 1, 1>>,
           <<2, 0, 0>>, <<-1, 0, 0>>}
Index3 == Index2 \cup {<<2, -1, 0>>, <<1, 1, -2>>, <<0, 0, -1>>}
Turns2 == {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<1, 0, 2, 0>>, <<1, 1, 1, 1>>}
Emit == at = 3 => PrintT("@C " \o ToJson([list |-> SetToSeq(list), pats |-> pats]))
=============================================================================
