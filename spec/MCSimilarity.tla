---------------------------- MODULE MCSimilarity ----------------------------
EXTENDS Similarity, TLC, Json
Emit == step[1] = "start" => PrintT("@C " \o ToJson([x |-> x, y |-> y, mask |-> mask]))
=============================================================================
