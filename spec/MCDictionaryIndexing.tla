------------------------ MODULE MCDictionaryIndexing ------------------------
EXTENDS DictionaryIndexing, TLC, Json
CONSTANT Every
\* A spread of the initial states is replayed on the implementation
Code == FoldLeft(LAMBDA a, b : a * (MaxScore + 1) + b, 0, sc) + 7 * perIter + 3 * keepN
Emit == (pos = 0 /\ Code % Every = 0) =>
          PrintT("@C " \o ToJson([sc |-> sc, sign |-> sign, per |-> perIter, keep |-> keepN]))
=============================================================================
