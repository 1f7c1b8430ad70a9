----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common part of every trace specification.                               *)
(*                                                                         *)
(* The implementation's observations are one JSON record per line.  A      *)
(* trace specification gives                                               *)
(*   InitSt          the abstract state before the first record of a case, *)
(*   Step(st, r)     the abstract state after observing r in st,           *)
(*   Clauses(st, r)  the named clauses that r must satisfy in st, as a     *)
(*                   function from clause name to BOOLEAN.                 *)
(* Verdicts are total: every record is judged and every clause that is     *)
(* FALSE is named, so one rejection never hides the records behind it.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS InitSt, Step(_, _), Clauses(_, _)

VARIABLES l, st

TraceLog == ndJsonDeserialize(IOEnv.TRACE_FILE)

\* A case that raised where the specification allows no exception, that
\* killed the process, or that did not come to an end
Aborted(r) == r.op \in {"exception", "crash", "hang"}

Verdict(s, r) ==
  LET c == IF Aborted(r) THEN [Completes |-> FALSE] ELSE Clauses(s, r)
  IN  [l |-> l,
       ok |-> {n \in DOMAIN c : c[n]},
       bad |-> {n \in DOMAIN c : ~c[n]}]

TraceInit == l = 1 /\ st = InitSt

Cur(s, r) == IF r.first THEN InitSt ELSE s

TraceNext ==
  /\ l <= Len(TraceLog)
  /\ LET r == TraceLog[l]
         s == Cur(st, r)
         v == Verdict(s, r)
     IN  /\ PrintT("@V " \o ToJson(v))
         /\ st' = IF Aborted(r)
                  THEN s ELSE Step(s, r)
  /\ l' = l + 1

TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>

TraceAccepted == TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
