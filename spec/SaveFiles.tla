----------------------------- MODULE SaveFiles -----------------------------
(***************************************************************************)
(* Files in a directory and one signal that is saved to, and loaded from,  *)
(* them.  The signal remembers where it was last saved or loaded from.     *)
(*                                                                         *)
(* A file is named by a base name and an extension.  A save names the file *)
(* by a name (with an extension or not) or not at all, may give the        *)
(* extension separately, and may say whether to overwrite; if it does not, *)
(* the user is asked.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Bases, Exts, Options, MaxEvents
VARIABLES disk,     \* file -> content; a file is <<base, extension>>
          value,    \* content of the signal
          source,   \* file a lazy signal reads from, or None
          tmp,      \* file last saved to or loaded from, or None
          stale,    \* the source was overwritten: the signal's content is unclear
          hist
vars == <<disk, value, source, tmp, stale, hist>>

None == <<"", "">>
Formats == {"h5", "hdf5", "h5ebsd", "dat", "hspy"}
Lower(e) == CASE e = "DAT" -> "dat" [] e = "H5" -> "h5" [] OTHER -> e
IsH5(e) == Lower(e) \in {"h5", "hdf5", "h5ebsd"}

\* The file a save writes to.  An extension given separately replaces the one
\* of the name; without either, it is the last one used, or h5
FileOf(last, base, ext, option) ==
  IF base = "" THEN IF last = None THEN None
                    ELSE <<last[1], IF option # "" THEN option
                                    ELSE IF Lower(last[2]) \in Formats THEN last[2] ELSE "h5">>
  ELSE <<base, IF option # "" THEN option ELSE IF ext # "" THEN ext ELSE "h5">>
Supported(f) == f # None /\ Lower(f[2]) \in Formats
\* Answer is "y", "n" or "eof" (no terminal)
Writes(exists, overwrite, answer) == ~exists \/ overwrite = "yes" \/ (overwrite = "ask" /\ answer = "y")
Asks(exists, overwrite) == exists /\ overwrite = "ask"

Put(d, f, v) == [g \in DOMAIN d \cup {f} |-> IF g = f THEN v ELSE d[g]]
Remember(e) == Append(hist, e)
Blank == [do |-> "", base |-> "", ext |-> "", option |-> "", overwrite |-> "", answer |-> "", lazy |-> FALSE]

Init == /\ disk = << >> /\ value = 1 /\ source = None /\ tmp = None /\ stale = FALSE /\ hist = <<>>
Save(base, ext, option, overwrite, answer) ==
  LET f == FileOf(tmp, base, ext, option)
      exists == f \in DOMAIN disk
      w == Supported(f) /\ Writes(exists, overwrite, answer)
  IN  /\ ~stale
      \* Adding a scan to a file with scans: see H5File
      /\ (Supported(f) /\ IsH5(f[2]) /\ exists) => overwrite = "yes"
      /\ (Asks(exists, overwrite) \/ answer = "eof")
      /\ disk' = IF w THEN Put(disk, f, value) ELSE disk
      /\ tmp' = IF w THEN f ELSE tmp
      /\ stale' = (w /\ source = f)
      /\ hist' = Remember([Blank EXCEPT !.do = "save", !.base = base, !.ext = ext, !.option = option,
                                        !.overwrite = overwrite, !.answer = answer])
      /\ UNCHANGED <<value, source>>
Load(f, lazy) ==
  /\ f \in DOMAIN disk
  /\ lazy => Lower(f[2]) = "dat"
  /\ value' = disk[f] /\ source' = (IF lazy THEN f ELSE None) /\ tmp' = f /\ stale' = FALSE
  /\ hist' = Remember([Blank EXCEPT !.do = "load", !.base = f[1], !.ext = f[2], !.lazy = lazy])
  /\ UNCHANGED disk
Change == /\ ~stale /\ value' = value + 1 /\ hist' = Remember([Blank EXCEPT !.do = "change"])
          /\ UNCHANGED <<disk, source, tmp, stale>>
Next == /\ Len(hist) < MaxEvents
        /\ \/ \E b \in Bases \cup {""}, e \in Exts, o \in Options, w \in {"yes", "no", "ask"}, a \in {"y", "n", "eof"} :
                (b = "" => e = "") /\ (b = "b.c" => e # "") /\ Save(b, e, o, w, a)
           \/ \E f \in DOMAIN disk, z \in BOOLEAN : Load(f, z)
           \/ Change
Spec == Init /\ [][Next]_vars

\* A file never changes but by a save that names it, and that the user agreed to
Agreed == [][\A f \in DOMAIN disk : /\ f \in DOMAIN disk'
                                    /\ disk'[f] # disk[f] =>
                                         LET e == hist'[Len(hist')]
                                         IN  /\ e.do = "save" /\ FileOf(tmp, e.base, e.ext, e.option) = f
                                             /\ (e.overwrite = "yes" \/ (e.overwrite = "ask" /\ e.answer = "y"))]_vars
\* Saving and loading again changes nothing
Reads == (hist # <<>> /\ hist[Len(hist)].do = "load") => value = disk[tmp]
TmpExists == tmp # None => tmp \in DOMAIN disk
=============================================================================
