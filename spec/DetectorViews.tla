--------------------------- MODULE DetectorViews ---------------------------
(***************************************************************************)
(* Interactive views of a detector.  A plotter has a detector of its own:  *)
(* the user's, if made inplace, or a copy.  It can be shown in several     *)
(* figures, each with a slider per attribute of the detector and per angle *)
(* of the orientation, and with boxes for what to draw.  The boxes of the  *)
(* simulations are shared by all figures.                                  *)
(*                                                                         *)
(* A slider that is moved sets its own attribute and no other.  Whatever   *)
(* is done to the plotter's detector, by a slider of any figure or         *)
(* elsewhere, all figures show it as it is.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Attrs, Angles, FigBoxes, SharedBoxes, Vals, MaxFigs, MaxEvents
VARIABLES s, hist
vars == <<s, hist>>

First == 1
NewFig(own) == [pos |-> [a \in Attrs |-> own[a]],
                rot |-> [a \in Angles |-> First],
                box |-> [b \in FigBoxes |-> IF b = "b2" THEN FALSE ELSE TRUE]]
Start(inplace) ==
  [inplace |-> inplace,
   user |-> [a \in Attrs |-> First],
   own |-> [a \in Attrs |-> First],
   shared |-> [b \in SharedBoxes |-> TRUE],
   figs |-> << >>]

Both(x, a, v) == [x EXCEPT !.own[a] = v, !.user[a] = IF x.inplace THEN v ELSE @]
Apply(x, e) ==
  CASE e.do = "show" -> [x EXCEPT !.figs = Append(@, NewFig(x.own))]
    [] e.do = "slide" -> [Both(x, e.what, e.to) EXCEPT !.figs[e.fig].pos[e.what] = e.to]
    [] e.do = "set" -> IF x.inplace THEN Both(x, e.what, e.to) ELSE [x EXCEPT !.user[e.what] = e.to]
    [] e.do = "turn" -> [x EXCEPT !.figs[e.fig].rot[e.what] = e.to]
    [] e.do = "box" -> [x EXCEPT !.figs[e.fig].box[e.what] = ~@]
    [] e.do = "shared" -> [x EXCEPT !.shared[e.what] = ~@]
    [] OTHER -> x

Event(do, fig, what, to) == [do |-> do, fig |-> fig, what |-> what, to |-> to]
Events(x) ==
  LET F == DOMAIN x.figs
  IN  (IF Len(x.figs) < MaxFigs THEN {Event("show", 0, "", 0)} ELSE {})
      \cup { Event("set", 0, a, v) : a \in Attrs, v \in Vals }
      \* A slider is moved to where it is not
      \cup { e \in { Event("slide", f, a, v) : f \in F, a \in Attrs, v \in Vals } :
                x.figs[e.fig].pos[e.what] # e.to }
      \cup { e \in { Event("turn", f, a, v) : f \in F, a \in Angles, v \in Vals } :
                x.figs[e.fig].rot[e.what] # e.to }
      \cup { Event("box", f, b, 0) : f \in F, b \in FigBoxes }
      \cup { Event("shared", f, b, 0) : f \in F, b \in SharedBoxes }

Init == /\ \E i \in BOOLEAN : s = Start(i)
        /\ hist = <<>>
Next == /\ Len(hist) < MaxEvents
        /\ \E e \in Events(s) :
             /\ s' = Apply(s, e)
             /\ hist' = Append(hist, [e |-> e, after |-> s'])
Spec == Init /\ [][Next]_vars

\* What a figure shows
Shows(x, f) == [det |-> x.own, rot |-> x.figs[f].rot, box |-> x.figs[f].box, shared |-> x.shared]

Inplace == s.inplace => s.user = s.own
Untouched == ~s.inplace =>
   \A a \in Attrs : \/ s.user[a] = First
                    \/ \E i \in DOMAIN hist : hist[i].e.do = "set" /\ hist[i].e.what = a
\* An attribute is what it was last set or slid to: nothing undoes it
LastSet(a) == { i \in DOMAIN hist : hist[i].e.what = a /\ hist[i].e.do \in {"slide", "set"} }
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
NotUndone == s.inplace =>
   \A a \in Attrs : LastSet(a) # {} => s.own[a] = hist[Last(LastSet(a))].e.to
===========================================================================
