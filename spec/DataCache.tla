----------------------------- MODULE DataCache -----------------------------
(***************************************************************************)
(* Datasets which are downloaded when needed.  A dataset is part of the    *)
(* package, on a server by itself, or in an archive on a server together   *)
(* with another dataset.  Downloads go to a cache on disk.                 *)
(*                                                                         *)
(* A call asks for one dataset and allows downloads or not; the server     *)
(* answers with the file ("ok"), with something else ("wrong") or not at   *)
(* all ("down").  A call takes several steps on disk and may be stopped    *)
(* before any of them.  Between calls, files in the cache may be damaged   *)
(* and the cache may be cleared.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxEvents
Kinds == {"package", "alone", "archive"}
Members == <<"pattern", "setting">>
Names == {"pattern", "setting"}
Servers == {"ok", "wrong", "down"}

VARIABLES kind, pkg,    \* where the dataset is; is the package's file as expected
          files, zip,   \* in the cache: "none", "good" or "bad"
          pc, call,     \* step of the running call, and what it asks for
          out, used,    \* outcome of the last call, and whether it used the network
          had,          \* was the asked file good when the call began
          hist
vars == <<kind, pkg, files, zip, pc, call, out, used, had, hist>>

NoCall == [name |-> "pattern", allow |-> FALSE, server |-> "ok"]

\* The disk, and the step taken, for a call at pc: [files, zip, pc, out, used]
Now(fs, z, p, o, u) == [files |-> fs, zip |-> z, pc |-> p, out |-> o, used |-> u]
StepOf(k, good, fs, z, p, c) ==
  CASE p = "start" ->
         IF k = "package" THEN Now(fs, z, "idle", IF good THEN "given" ELSE "failed", FALSE)
         ELSE IF fs[c.name] = "good" THEN Now(fs, z, "idle", "given", FALSE)
         ELSE IF ~c.allow THEN Now(fs, z, "idle", "refused", FALSE)
         ELSE IF k = "alone" THEN Now(fs, z, "download", "", FALSE)
         ELSE Now([fs EXCEPT ![c.name] = "none"], z, IF z = "good" THEN "pattern" ELSE "archive", "", FALSE)
    [] p = "download" ->
         IF c.server = "ok" THEN Now([fs EXCEPT ![c.name] = "good"], z, "idle", "given", TRUE)
         ELSE Now(fs, z, "idle", "failed", TRUE)
    [] p = "archive" ->
         IF c.server = "ok" THEN Now(fs, "good", "pattern", "", TRUE)
         ELSE Now(fs, z, "idle", "failed", TRUE)
    \* Extraction overwrites one member after the other
    [] p = "pattern" -> Now([fs EXCEPT !["pattern"] = "bad"], z, "pattern2", "", FALSE)
    [] p = "pattern2" -> Now([fs EXCEPT !["pattern"] = "good"], z, "setting", "", FALSE)
    [] p = "setting" -> Now([fs EXCEPT !["setting"] = "bad"], z, "setting2", "", FALSE)
    [] p = "setting2" -> Now([fs EXCEPT !["setting"] = "good"], z, "remove", "", FALSE)
    [] p = "remove" -> Now(fs, "none", "idle", "given", FALSE)

RECURSIVE RunFrom(_, _, _, _, _, _, _, _)
\* All steps of a call, or those before the step `stop`
RunFrom(k, good, fs, z, p, c, u, stop) ==
  IF p = stop THEN Now(fs, z, "idle", "stopped", u)
  ELSE LET n == StepOf(k, good, fs, z, p, c)
       IN  IF n.pc = "idle" THEN [n EXCEPT !.used = u \/ n.used]
           ELSE RunFrom(k, good, n.files, n.zip, n.pc, c, u \/ n.used, stop)
Run(k, good, fs, z, c, stop) == RunFrom(k, good, fs, z, "start", c, FALSE, stop)

Init == /\ kind \in Kinds /\ pkg \in (IF kind = "package" THEN BOOLEAN ELSE {FALSE})
        /\ files = [n \in Names |-> "none"] /\ zip = "none"
        /\ pc = "idle" /\ call = NoCall /\ out = "" /\ used = FALSE /\ had = FALSE /\ hist = <<>>

Begin == /\ pc = "idle" /\ Len(hist) < MaxEvents
         /\ call' \in [name : IF kind = "archive" THEN Names ELSE {"pattern"}, allow : BOOLEAN, server : Servers]
         /\ pc' = "start" /\ out' = "" /\ used' = FALSE /\ had' = (files[call'.name] = "good")
         /\ hist' = Append(hist, [do |-> "call", name |-> call'.name, allow |-> call'.allow,
                                  server |-> call'.server, stop |-> ""])
         /\ UNCHANGED <<kind, pkg, files, zip>>
Step == /\ pc # "idle"
        /\ LET n == StepOf(kind, pkg, files, zip, pc, call)
           IN  /\ files' = n.files /\ zip' = n.zip /\ pc' = n.pc /\ out' = n.out /\ used' = (used \/ n.used)
        /\ UNCHANGED <<kind, pkg, call, had, hist>>
Stop == /\ pc \notin {"idle", "start"}
        /\ pc' = "idle" /\ out' = "stopped" /\ hist' = [hist EXCEPT ![Len(hist)].stop = pc]
        /\ UNCHANGED <<kind, pkg, files, zip, call, used, had>>
Damage == /\ pc = "idle" /\ Len(hist) < MaxEvents
          /\ \E n \in Names : /\ files[n] = "good" /\ files' = [files EXCEPT ![n] = "bad"]
                              /\ hist' = Append(hist, [do |-> "damage", name |-> n, allow |-> FALSE,
                                                       server |-> "", stop |-> ""])
          /\ out' = "" /\ UNCHANGED <<kind, pkg, zip, pc, call, used, had>>
Clear == /\ pc = "idle" /\ Len(hist) < MaxEvents
         /\ files' = [n \in Names |-> "none"] /\ zip' = "none" /\ out' = ""
         /\ hist' = Append(hist, [do |-> "clear", name |-> "", allow |-> FALSE, server |-> "", stop |-> ""])
         /\ UNCHANGED <<kind, pkg, pc, call, used, had>>
Next == Begin \/ Step \/ Stop \/ Damage \/ Clear
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

Stays == (kind = "package" /\ pkg) \/ (kind # "package" /\ files[call.name] = "good")
GivenIsGood == out = "given" => Stays
NetworkOnlyIfAllowed == used => (call.allow /\ ~had /\ kind # "package")
NotKept == out = "given" /\ kind = "archive" /\ ~had => zip = "none"
\* From whatever was left on disk, one call is enough
OneCall == pc = "idle" /\ kind # "package" => \A n \in (IF kind = "archive" THEN Names ELSE {"pattern"}) :
  LET e == Run(kind, pkg, files, zip, [name |-> n, allow |-> TRUE, server |-> "ok"], "none")
  IN  e.out = "given" /\ e.files[n] = "good"
\* Calls end
Ends == (pc # "idle") ~> (pc = "idle")
=============================================================================
