------------------------------ MODULE BandSum ------------------------------
(***************************************************************************)
(* A kinematical master pattern: each pixel is the sum of the intensities  *)
(* of the bands it is in.  Threads add band intensities to pixels by       *)
(* reading, adding and writing in separate steps.  The sums are right for  *)
(* every schedule when each pixel belongs to one thread.                   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Threads, Pixels, Bands, In(_, _), Owner(_, _)
VARIABLES value, todo, reg
vars == <<value, todo, reg>>

Work(t) == {w \in Pixels \X Bands : In(w[1], w[2]) /\ Owner(w[1], w[2]) = t}
Init == /\ value = [p \in Pixels |-> 0]
        /\ todo = [t \in Threads |-> Work(t)]
        /\ reg = [t \in Threads |-> <<>>]
Read(t) == /\ reg[t] = <<>> /\ todo[t] # {}
           /\ \E w \in todo[t] : reg' = [reg EXCEPT ![t] = <<w, value[w[1]]>>]
           /\ UNCHANGED <<value, todo>>
Write(t) == /\ reg[t] # <<>>
            /\ value' = [value EXCEPT ![reg[t][1][1]] = reg[t][2] + 1]
            /\ todo' = [todo EXCEPT ![t] = @ \ {reg[t][1]}]
            /\ reg' = [reg EXCEPT ![t] = <<>>]
Next == \E t \in Threads : Read(t) \/ Write(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == \A t \in Threads : todo[t] = {}
Sums == Done => \A p \in Pixels : value[p] = Cardinality({b \in Bands : In(p, b)})
Ends == <>Done
=============================================================================
