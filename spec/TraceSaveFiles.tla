--------------------------- MODULE TraceSaveFiles ---------------------------
EXTENDS TraceBase, SequencesExt
S == INSTANCE SaveFiles WITH Bases <- {}, Exts <- {}, Options <- {}, MaxEvents <- 0, disk <- <<>>, value <- 0,
                             source <- <<>>, tmp <- <<>>, stale <- FALSE, hist <- <<>>
TInit == [disk |-> << >>, tmp |-> S!None, value |-> 1]

\* Observed files are <<base, extension, content>>
Seen(r) == {<<x[1], x[2], x[3]>> : x \in ToSet(r.disk)}
Files(d) == {<<f[1], f[2], d[f]>> : f \in DOMAIN d}
File(s, r) == S!FileOf(s.tmp, r.base, r.ext, r.option)
Written(s, r) == LET f == File(s, r)
                 IN  S!Supported(f) /\ S!Writes(f \in DOMAIN s.disk, r.overwrite, r.answer)
After(s, r) ==
  CASE r.do = "save" -> IF Written(s, r) THEN [s EXCEPT !.disk = S!Put(s.disk, File(s, r), s.value), !.tmp = File(s, r)] ELSE s
    [] r.do = "load" -> [s EXCEPT !.value = s.disk[<<r.base, r.ext>>], !.tmp = <<r.base, r.ext>>]
    [] r.do = "change" -> [s EXCEPT !.value = @ + 1]
    [] r.do = "start" -> s
TStep(s, r) == IF r.op = "event" THEN After(s, r) ELSE s

EventClauses(s, r) ==
  LET n == After(s, r)
  IN [
   OnDisk |-> Seen(r) = Files(n.disk),
   Outcome |-> (r.err = "") = (r.do = "save" => S!Supported(File(s, r))),
   Asked |-> r.do = "save" => (r.prompts > 0) = (S!Supported(File(s, r)) /\ S!Asks(File(s, r) \in DOMAIN s.disk, r.overwrite)),
   Remembered |-> r.tmp = n.tmp,
   Content |-> r.value = -2 \/ r.value = n.value,
   Shape |-> r.shape = r.shape0,
   OthersSame |-> r.others
  ]

\* Loading a file that has another name or content
Readable == [kikuchipy |-> {"h5", "hdf5", "h5ebsd"}, bruker |-> {"h5", "hdf5", "h5ebsd"},
             emsoft |-> {"h5", "hdf5"}, master |-> {"h5", "hdf5"}, oxford |-> {"h5oina"},
             nordif |-> {"dat"}, up1 |-> {"up1", "up2"}, ebsp |-> {"ebsp"}, settings |-> {"txt"},
             foreign |-> {}, nothing |-> {}]
LoadClauses(r) == [
   Loads |-> (r.err = "") = (r.lower \in Readable[r.content] /\ r.exists),
   Refused |-> r.err # "" => r.err \in {"OSError", "FileNotFoundError"},
   SameAsUsual |-> r.err = "" => r.same,
   RemembersFile |-> r.err = "" => r.tmp,
   Kind |-> r.err = "" => r.class = (IF r.lazy THEN "Lazy" ELSE "") \o
                                      (IF r.content = "master" THEN "EBSDMasterPattern" ELSE "EBSD")
  ]
\* The file has the patterns as they are now
ProcessClauses(r) == [SavedAsIs |-> r.equal /\ r.size = r.want, NothingElse |-> r.left = <<>>]
TClauses(s, r) == IF r.op = "event" THEN EventClauses(s, r)
                  ELSE IF r.op = "process" THEN ProcessClauses(r) ELSE LoadClauses(r)
=============================================================================
