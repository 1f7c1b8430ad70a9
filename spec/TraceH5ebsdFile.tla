-------------------------- MODULE TraceH5ebsdFile --------------------------
EXTENDS TraceBase, Num
H == INSTANCE H5ebsdFile WITH Nums <- {}, Contents <- {}, AnswerSeqs <- {}, NumOf <- <<>>,
       file <- <<>>, open <- FALSE, hist <- <<>>
(* The abstract state: the file, whether it is held open, the raw digests of   *)
(* the scans in it as last seen, and the parts of the contents saved so far    *)
TInit == [file |-> H!NoFile, open |-> FALSE, raw |-> <<>>, src |-> <<>>]

NumsOf(r) == [x \in ToSet([i \in 1..Len(r.nums) |-> r.nums[i][1]]) |->
                (CHOOSE p \in ToSet(r.nums) : p[1] = x)[2]]
Result(s, r) ==
  CASE r.op = "save" -> H!Saved(s.file, s.open, r.c, r.n, r.over, r.add, r.a, NumsOf(r))
    [] r.op = "foreign" -> [file |-> H!Foreign, raised |-> FALSE, wrote |-> FALSE]
    [] OTHER -> [file |-> s.file, raised |-> FALSE, wrote |-> FALSE]

\* The state follows the specification, not the observation
TStep(s, r) ==
  [file |-> Result(s, r).file,
   open |-> CASE r.op = "hold" -> TRUE [] r.op = "close" -> FALSE [] OTHER -> s.open,
   raw |-> r.raw,
   src |-> IF r.op = "sources" THEN r.src ELSE s.src]

RawOf(raw, n) == {p \in ToSet(raw) : p[1] = n}
\* Numbers of the scans that were in the file and are still the same ones
Survivors(s, res) ==
  IF res.wrote /\ ~ (/\ s.file.scans \subseteq res.file.scans
                     /\ Cardinality(res.file.scans) = Cardinality(s.file.scans) + 1)
  THEN {} ELSE H!Numbers(s.file)

TClauses(s, r) ==
  LET res == Result(s, r)
      want == H!Wanted(s.file, r.names, r.order)
      ids == [i \in 1..Len(want) |-> H!ContentOf(s.file, want[i])]
      part(name) == \A i \in 1..Len(want) : r.got[i][name] = s.src[ids[i]][name]
      saving == [
        RaisesIffRefused |-> r.raised = res.raised,
        ScansInFile |-> r.kind = res.file.kind /\ ToSet(r.order) = H!Numbers(res.file),
        OtherScansUntouched |-> \A n \in Survivors(s, res) : RawOf(r.raw, n) = RawOf(s.raw, n),
        UntouchedIfNotWritten |-> ~ res.wrote => r.raw = s.raw]
      loadraise == [RaisesIffNotThere |-> r.raised = H!LoadRaises(s.file, r.names)]
      loading == [
        AllScansAskedFor |-> Len(r.got) = Len(want),
        LoadedAsAsked |-> r.lazy = r.is_lazy]
      parts == [
        Patterns |-> part("data"), Axes |-> part("axes"), Detector |-> part("detector"),
        CrystalMap |-> part("xmap"), Background |-> part("background"),
        ScanMetadata |-> part("meta")]
  IN  CASE r.op = "save" -> saving
        [] r.op = "load" ->
             IF H!LoadRaises(s.file, r.names) \/ r.raised THEN loadraise
             ELSE IF Len(r.got) # Len(want) THEN loadraise @@ loading
             ELSE loadraise @@ loading @@ parts
        [] r.op \in {"hold", "close"} -> [ScansInFile |-> ToSet(r.order) = H!Numbers(s.file)]
        [] OTHER -> [Set |-> TRUE]
=============================================================================
