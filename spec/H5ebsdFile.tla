----------------------------- MODULE H5ebsdFile -----------------------------
(***************************************************************************)
(* The life of a kikuchipy h5ebsd file.                                    *)
(*                                                                         *)
(* A file is [kind, scans]: kind is "none" (there is no file), "kikuchipy" *)
(* or "foreign" (some other HDF5 file), and scans is a set of pairs        *)
(* <<number, content>>.  open tells whether a lazily loaded signal still   *)
(* holds the file.                                                         *)
(*                                                                         *)
(* A save has a content, a scan number, overwrite and add_scan ("yes",     *)
(* "no" or "ask"), and the user's answers in the order they are given.     *)
(* When there are no answers left, the terminal does not support input;    *)
(* the answer "EOF" ends the session.                                      *)
(***************************************************************************)
EXTENDS Num, TLC

Numbers(f) == {p[1] : p \in f.scans}
NoFile == [kind |-> "none", scans |-> {}]
Foreign == [kind |-> "foreign", scans |-> {}]
OneScan(n, c) == [kind |-> "kikuchipy", scans |-> {<<n, c>>}]

YesNo == {"y", "n", "Y", "N"}
Yes == {"y", "Y"}

\* Answer to a yes or no question: [v: "yes", "no" or "eof", rest]
RECURSIVE AskBool(_)
AskBool(a) ==
  IF a = <<>> THEN [v |-> "no", rest |-> a]
  ELSE IF a[1] = "EOF" THEN [v |-> "eof", rest |-> Tail(a)]
  ELSE IF a[1] \in YesNo
       THEN [v |-> IF a[1] \in Yes THEN "yes" ELSE "no", rest |-> Tail(a)]
  ELSE AskBool(Tail(a))

\* nums: function from the answers that are numbers to their values
RECURSIVE AskNumber(_, _)
AskNumber(a, nums) ==
  IF a = <<>> THEN [v |-> "none", n |-> 0]
  ELSE IF a[1] = "EOF" THEN [v |-> "eof", n |-> 0]
  ELSE IF a[1] \in DOMAIN nums THEN [v |-> "number", n |-> nums[a[1]]]
  ELSE AskNumber(Tail(a), nums)

Kept(f) == [file |-> f, raised |-> FALSE, wrote |-> FALSE]
Refused(f) == [file |-> f, raised |-> TRUE, wrote |-> FALSE]
Replaced(f, open, n, c) ==
  IF open THEN Refused(f)
  ELSE [file |-> OneScan(n, c), raised |-> FALSE, wrote |-> TRUE]
With(f, n, c) ==
  [file |-> [f EXCEPT !.scans = @ \cup {<<n, c>>}], raised |-> FALSE, wrote |-> TRUE]

Added(f, open, n, c, a, nums) ==
  IF open \/ f.kind # "kikuchipy" THEN Refused(f)
  ELSE IF n \notin Numbers(f) THEN With(f, n, c)
  ELSE LET r == AskNumber(a, nums)
       IN  IF r.v # "number" \/ r.n \in Numbers(f) THEN Refused(f) ELSE With(f, r.n, c)

\* [file, raised, wrote] after a save
Saved(f, open, c, n, over, add, a, nums) ==
  IF f.kind = "none" THEN Replaced(f, FALSE, n, c)
  ELSE IF over = "yes" THEN Replaced(f, open, n, c)
  ELSE LET b == IF add = "ask" THEN AskBool(a) ELSE [v |-> add, rest |-> a]
       IN  IF b.v = "eof" THEN Refused(f)
           ELSE IF b.v = "yes" THEN Added(f, open, n, c, b.rest, nums)
           ELSE IF over = "no" THEN Kept(f)
           ELSE LET o == AskBool(b.rest)
                IN  IF o.v = "eof" THEN Refused(f)
                    ELSE IF o.v = "yes" THEN Replaced(f, open, n, c)
                    ELSE Kept(f)

------------------------------------------------------------------------------
(* Loading.  names: "first", or a sequence of numbers; order: the numbers in *)
(* the file in the order of the names of their groups.                       *)
Wanted(f, names, order) ==
  IF names = <<>> THEN <<order[1]>> ELSE SelectSeq(names, LAMBDA n : n \in Numbers(f))
LoadRaises(f, names) ==
  f.kind # "kikuchipy" \/ (Len(names) = 1 /\ names[1] \notin Numbers(f))
ContentOf(f, n) == (CHOOSE p \in f.scans : p[1] = n)[2]

------------------------------------------------------------------------------
CONSTANTS Nums, Contents, AnswerSeqs, NumOf
VARIABLES file, open, hist
vars == <<file, open, hist>>

Init == /\ file \in {NoFile, Foreign}
        /\ open = FALSE
        /\ hist = <<[op |-> IF file.kind = "none" THEN "nothing" ELSE "foreign"]>>

Three == {"yes", "no", "ask"}
SaveOps == [op : {"save"}, c : Contents, n : Nums, over : Three, add : Three, a : AnswerSeqs]
After(o) == Saved(file, open, o.c, o.n, o.over, o.add, o.a, NumOf)
DoSave == \E o \in SaveOps :
  /\ file' = After(o).file
  /\ hist' = Append(hist, o)
  /\ UNCHANGED open
DoHold == /\ file.kind = "kikuchipy" /\ ~open /\ open' = TRUE
          /\ hist' = Append(hist, [op |-> "hold"]) /\ UNCHANGED file
DoClose == /\ open /\ open' = FALSE
           /\ hist' = Append(hist, [op |-> "close"]) /\ UNCHANGED file
Next == DoSave \/ DoHold \/ DoClose
Spec == Init /\ [][Next]_vars
View == <<file, open>>

OneContentPerNumber == \A p, r \in file.scans : p[1] = r[1] => p = r
ScansOnlyInOwnFiles == (file.kind = "kikuchipy") = (file.scans # {})
\* Nothing that was in the file is lost unless overwriting was asked for
Agreed(o) == o.over = "yes" \/ (o.over = "ask" /\ o.add # "yes" /\ \E i \in DOMAIN o.a : o.a[i] \in Yes)
Lossless(o, f, g) == ~ Agreed(o) => (f.scans \subseteq g.scans /\ (f.kind = "foreign" => g = f))
NothingLost ==
  [][LET o == hist'[Len(hist')]
     IN  o.op = "save" =>
           /\ Lossless(o, file, file')
           /\ After(o).raised => file' = file
           /\ After(o).wrote => \E p \in file'.scans : p[2] = o.c]_vars
=============================================================================
