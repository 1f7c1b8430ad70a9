--------------------------- MODULE TraceDataCache ---------------------------
EXTENDS TraceBase
D == INSTANCE DataCache WITH MaxEvents <- 0, kind <- "", pkg <- FALSE, files <- <<>>, zip <- "", pc <- "",
                             call <- <<>>, out <- "", used <- FALSE, had <- FALSE, hist <- <<>>
\* The state is what was seen on disk after the last record
TInit == [files |-> [pattern |-> "none", setting |-> "none"], zip |-> "none"]
TStep(s, r) == IF r.op = "event" THEN [files |-> r.files, zip |-> r.zip] ELSE s

\* r.stop is the step the call was really stopped at, if any
CallClauses(s, r) ==
  LET e == D!Run(r.kind, r.pkg, s.files, s.zip, [name |-> r.name, allow |-> r.allow, server |-> r.server],
                 IF r.stop = "" THEN "none" ELSE r.stop)
      was == s.files[r.name]
  IN [
   Outcome |-> r.out = e.out,
   GivenIsGood |-> r.out = "given" => /\ r.content /\ r.path
                                       /\ (r.kind = "package" \/ r.files[r.name] = "good"),
   \* An archive which is left may be used or downloaded again
   Network |-> /\ (r.used => (r.allow /\ was # "good" /\ r.kind # "package"))
               /\ (e.used => r.used) /\ (e.out = "refused" => ~r.used),
   Address |-> r.used => r.address,
   GoodStays |-> was = "good" => r.files = s.files,
   NotDamaged |-> (r.files[r.name] = "bad" /\ r.stop = "") => was = "bad",
   FromArchive |-> (r.out = "given" /\ r.used /\ r.kind = "archive") =>
                     (r.files = e.files /\ r.zip = "none"),
   NothingLeft |-> (r.out = "given" /\ was # "good") => (~r.litter /\ r.zip = "none"),
   OthersSame |-> r.others
  ]
EventClauses(s, r) ==
  CASE r.do = "call" -> CallClauses(s, r)
    [] r.do = "damage" -> [Damaged |-> r.files[r.name] # "good"]
    [] r.do = "clear" -> [Cleared |-> /\ r.files = TInit.files /\ r.zip = "none" /\ r.out = "given"
                                      /\ r.empty /\ r.exists /\ r.outside]

\* Which file a function of kikuchipy.data asks for
Gain == <<"0", "3", "6", "9", "12", "15", "17", "20", "22", "24">>
Phases == [ni |-> "ni", al |-> "al", si |-> "si", austenite |-> "austenite", ferrite |-> "ferrite",
           steel_chi |-> "steel_chi", steel_sigma |-> "steel_sigma", steel_sigma2 |-> "steel_sigma2",
           steel_r |-> "r", steel_pi |-> "pi", steel_cr2n |-> "cr2n", al6mn |-> "al6mn",
           alpha_almnsi |-> "alpha_almnsi"]
Screens == [n \in {0, 5, 10} |-> CASE n = 0 -> "in" [] n = 5 -> "out5mm" [] n = 10 -> "out10mm"]
Wanted(r) ==
  LET N == ToString(r.number)
  IN CASE r.fun = "ni_gain" -> [path |-> "ni_gain/" \o N \o "/Pattern.dat",
                                from |-> "scan" \o N \o "_gain" \o Gain[r.number] \o "db.zip"]
       [] r.fun = "ni_gain_calibration" -> [path |-> "ni_gain/" \o N \o "/Setting.txt",
                                from |-> "scan" \o N \o "_gain" \o Gain[r.number] \o "db.zip"]
       [] r.fun = "si_wafer" -> [path |-> "si_wafer/Pattern.dat", from |-> "ebsd_si_wafer.zip"]
       [] r.fun = "si_ebsd_moving_screen" ->
            [path |-> "silicon_ebsd_moving_screen/si_" \o Screens[r.number] \o ".h5",
             from |-> "si_" \o Screens[r.number] \o ".h5"]
       [] r.fun = "nickel_ebsd_large" -> [path |-> "nickel_ebsd_large/patterns.h5", from |-> "patterns_v2.h5"]
       [] r.fun = "ebsd_master_pattern" ->
            [path |-> "ebsd_master_pattern/" \o Phases[r.phase] \o "_mc_mp_20kv.h5",
             from |-> Phases[r.phase] \o "_mc_mp_20kv.h5"]
       [] r.fun = "nickel_ebsd_small" -> [path |-> "kikuchipy_h5ebsd/patterns.h5", from |-> ""]
       [] r.fun = "nickel_ebsd_master_pattern_small" ->
            [path |-> "emsoft_ebsd_master_pattern/ni_mc_mp_20kv_uint8_gzip_opts9.h5", from |-> ""]
FunctionClauses(r) == LET w == Wanted(r) IN [
   RightFile |-> r.path = w.path,
   RightAddress |-> r.from = w.from,
   Refused |-> r.refused = (w.from # ""),
   SecondTime |-> r.again = "",
   KwargsPassed |-> r.lazy = r.asked,
   Kind |-> r.class = (IF r.fun \in {"ebsd_master_pattern", "nickel_ebsd_master_pattern_small"}
                       THEN "EBSDMasterPattern" ELSE "EBSD")
  ]
TClauses(s, r) == IF r.op = "event" THEN EventClauses(s, r) ELSE FunctionClauses(r)
=============================================================================
