--------------------------- MODULE MasterHistory ---------------------------
(***************************************************************************)
(* Master patterns in any history of slicing, cropping, copying, casting.  *)
(*                                                                         *)
(* A master pattern holds images of some hemispheres at some energies.     *)
(* Whatever is done to it, it must say which hemispheres and energies,     *)
(* projection, and phase these images are of, and the images projected     *)
(* onto a detector must be of the hemisphere and energy asked for.         *)
(*                                                                         *)
(* sigs[k] is a signal:                                                    *)
(*   hemi   hemispheres held, in order;  hax  has it a hemisphere axis     *)
(*   en     energies held (numbers of images);  eax  has it an energy axis *)
(*   n      pixels along a side (a window of the first is square)          *)
(*   add    added to all intensities                                       *)
(*   lazy, cls, dt (data type), phase, proj (projection)                   *)
(*   mem    slices and lazy signals may share memory with what they are of *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxOps, Full       \* Full: pixels along an image's side
VARIABLES sigs, hist
vars == <<sigs, hist>>

Both == <<"upper", "lower">>
Signal(hemi, ne, eax, lazy, proj) ==
  [hemi |-> hemi, hax |-> Len(hemi) = 2, en |-> [e \in 1..ne |-> e], eax |-> eax,
   n |-> Full, add |-> 0, lazy |-> lazy, cls |-> "EBSD", dt |-> "first",
   phase |-> "first", proj |-> proj, mem |-> 1]
Starts == {Signal(h, ne, eax, lazy, proj) :
             h \in {Both, <<"upper">>, <<"lower">>}, ne \in {1, 3}, eax \in BOOLEAN,
             lazy \in BOOLEAN, proj \in {"stereographic", "lambert"}}

Sub(q, a, b) == [i \in 1..(b - a) |-> q[a + i]]     \* Elements a, ..., b - 1 from 0

\* What can be done to signal s.  One energy or hemisphere is given as such, or
\* as a range of one, which keeps the axis.  Positions are from 0.
Ways == {"one", "range"}
Can(s) ==
  (IF s.eax THEN
     {[do |-> "energy", i |-> i, j |-> i + 1, how |-> h] : i \in 0..(Len(s.en) - 1), h \in Ways}
     \cup {[do |-> d, i |-> i, j |-> j, how |-> "range"] :
             d \in {"energies", "crop energies"},
             i \in 0..(Len(s.en) - 1), j \in 1..Len(s.en)}
   ELSE {})
  \cup (IF s.hax /\ Len(s.hemi) = 2 THEN
     {[do |-> "hemisphere", i |-> i, j |-> i + 1, how |-> h] : i \in 0..1, h \in Ways}
     \cup {[do |-> "crop hemispheres", i |-> i, j |-> j, how |-> "range"] :
             i \in 0..1, j \in 1..2}
   ELSE {})
  \cup (IF s.n = Full THEN {[do |-> "window", i |-> 1, j |-> Full - 1, how |-> "range"]} ELSE {})
  \cup {[do |-> d, i |-> 0, j |-> 1, how |-> ""] :
          d \in {"copy", "lazy", "compute", "dtype", "add", "class", "rename", "as Lambert"}}
  \cup {[do |-> "adjust", i |-> 0, j |-> 1, how |-> h] :
          h \in {"inplace", "new", "new lazy", "new in memory"}}
Sensible(s, o) == /\ o \in Can(s) /\ o.i < o.j
                  /\ o.do = "compute" => s.lazy
                  /\ o.do = "as Lambert" => (s.proj = "lambert" \/ ~s.lazy)

\* In place or a new signal
InPlace(o) == o.do \in {"crop energies", "crop hemispheres", "compute", "dtype", "class", "rename"}
              \/ o.how = "inplace"

Apply(s, o) ==
  CASE o.do = "energy" -> [s EXCEPT !.en = Sub(s.en, o.i, o.j), !.eax = (o.how = "range")]
    [] o.do \in {"energies", "crop energies"} -> [s EXCEPT !.en = Sub(s.en, o.i, o.j)]
    [] o.do = "hemisphere" -> [s EXCEPT !.hemi = Sub(s.hemi, o.i, o.j), !.hax = (o.how = "range")]
    [] o.do = "crop hemispheres" -> [s EXCEPT !.hemi = Sub(s.hemi, o.i, o.j)]
    [] o.do = "window" -> [s EXCEPT !.n = o.j - o.i]
    [] o.do = "copy" -> s
    [] o.do = "lazy" -> [s EXCEPT !.lazy = TRUE]
    [] o.do = "compute" -> [s EXCEPT !.lazy = FALSE]
    [] o.do = "dtype" -> [s EXCEPT !.dt = "second"]
    [] o.do = "add" -> [s EXCEPT !.add = s.add + 1]
    [] o.do = "adjust" ->       \* Intensities, by as much
         [s EXCEPT !.add = s.add + 1,
                   !.lazy = IF o.how = "new lazy" THEN TRUE
                            ELSE IF o.how = "new in memory" THEN FALSE ELSE s.lazy]
    [] o.do = "class" -> [s EXCEPT !.cls = IF s.cls = "EBSD" THEN "ECP" ELSE "EBSD"]
    [] o.do = "as Lambert" ->   \* A copy if in this projection already
         IF s.proj = "lambert" THEN s ELSE [s EXCEPT !.proj = "lambert", !.dt = "first"]
    [] o.do = "rename" -> [s EXCEPT !.phase = "second"]

Memory(s, o, new) ==
  IF ~Apply(s, o).lazy /\ (o.do \in {"copy", "add", "as Lambert", "adjust"} /\ o.how # "inplace")
  THEN new ELSE s.mem
After(ss, k, o) ==
  IF InPlace(o) THEN [ss EXCEPT ![k] = Apply(ss[k], o)]
  ELSE Append(ss, [Apply(ss[k], o) EXCEPT !.mem = Memory(ss[k], o, Len(ss) + 1)])
\* What changes intensities in place is left out if others may share them
Possible(ss, k, o) ==
  /\ k \in DOMAIN ss
  /\ Sensible(ss[k], o)
  /\ o.how = "inplace" => \A j \in DOMAIN ss \ {k} : ss[j].mem # ss[k].mem

Init == hist = <<>> /\ \E s \in Starts : (Len(s.en) > 1 => s.eax) /\ sigs = <<s>>
Next == /\ Len(hist) < MaxOps
        /\ \E k \in DOMAIN sigs : \E o \in Can(sigs[k]) :
             /\ Possible(sigs, k, o)
             /\ sigs' = After(sigs, k, o)
             /\ hist' = Append(hist, [o |-> o, k |-> k])
Spec == Init /\ [][Next]_vars

\* What a signal says it holds
Says(s) == IF Len(s.hemi) = 2 THEN "both" ELSE s.hemi[1]
TypeOK == \A k \in DOMAIN sigs :
            /\ Len(sigs[k].hemi) \in 1..2 /\ Len(sigs[k].en) >= 1
            /\ Len(sigs[k].en) > 1 => sigs[k].eax
            /\ Len(sigs[k].hemi) = 2 => sigs[k].hax
\* A signal never holds a hemisphere its origin did not
NoNewImages == \A k \in DOMAIN sigs : \A h \in {sigs[k].hemi[i] : i \in DOMAIN sigs[k].hemi} :
                 \E j \in 1..k : j = 1 \/ h \in {sigs[j].hemi[i] : i \in DOMAIN sigs[j].hemi}

\* Intensity of the image of hemisphere h and energy e (from 1)
Value(s, h, e) == (IF h = "upper" THEN 0 ELSE 1000) + 100 * e + s.add
\* A hemisphere not held is seen in the opposite one
Seen(s, h, e) == IF \E i \in DOMAIN s.hemi : s.hemi[i] = h THEN Value(s, h, e)
                 ELSE Value(s, s.hemi[1], e)
=============================================================================
