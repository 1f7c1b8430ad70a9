------------------------- MODULE DecompositionModel -------------------------
(***************************************************************************)
(* Models of patterns from the components of a decomposition.              *)
(*                                                                         *)
(* A signal has patterns and, after a decomposition, learning results:     *)
(* component patterns ("factors", a row per pixel) and how much of each    *)
(* there is in each pattern ("loadings", a row per pattern).  A model is   *)
(* the sum over chosen components.  It may be returned, or written to a    *)
(* file scaled to the whole range of the patterns' type.  Asking for       *)
(* components which are not there fails.  Whatever is asked, and whether   *)
(* it fails, the learning results and the patterns stay.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

\* @value {"all"}: no components given, "first": a number, "list": indices
Chosen(kind, list, n) ==
  CASE kind = "all" -> [k \in 1..n |-> k]
    [] kind = "first" -> [k \in 1..(IF list[1] < n THEN list[1] ELSE n) |-> k]
    [] kind = "list" -> [k \in 1..Len(list) |-> IF list[k] < 0 THEN list[k] + n + 1 ELSE list[k] + 1]
Exists(kind, list, n) == kind = "list" => \A k \in 1..Len(list) : list[k] \in -n..(n - 1)

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
\* Intensity of one pixel in one pattern
At(factor, loading, chosen) == Sum([k \in 1..Len(chosen) |-> factor[chosen[k]] * loading[chosen[k]]])
\* Rows are patterns, columns pixels
Model(factors, loadings, chosen) ==
  [i \in 1..Len(loadings) |-> [j \in 1..Len(factors) |-> At(factors[j], loadings[i], chosen)]]
WithMean(m, mean) ==
  [i \in 1..Len(m) |-> [j \in 1..Len(m[i]) |-> m[i][j] + (IF Len(mean) = 1 THEN mean[1][j] ELSE mean[i][1])]]

Flat(m) == FlattenSeq(m)
Lowest(m) == Min(ToSet(Flat(m)))
Highest(m) == Max(ToSet(Flat(m)))
\* x in the range of m is written as y in 0..top
Scaled(m, x, y, top) ==
  LET lo == Lowest(m)
      d == Highest(m) - lo
      e == y * d - (x - lo) * top
  IN  d = 0 \/ (e =< d /\ -e =< d)

-----------------------------------------------------------------------------
\* A user asks for models, one after the other
CONSTANTS N,         \* components
          Patterns,  \* number of patterns
          Pixels,
          Values,    \* in the learning results
          MaxCalls

VARIABLES factors, loadings, orig, files, out, hist
vars == <<factors, loadings, orig, files, out, hist>>

\* Learning results from the values, deterministic but for an offset
Made(rows, o) == [i \in 1..rows |-> [k \in 1..N |-> Values[((i * k + o * i + k) % Len(Values)) + 1]]]
Init ==
  /\ \E o \in 0..2 : factors = Made(Pixels, o) /\ loadings = Made(Patterns, 2 * o + 1)
  /\ orig = <<factors, loadings>>
  /\ files = {}
  /\ out = << >>
  /\ hist = << >>
Lists == {<<0>>, <<N - 1>>, <<-1>>, <<0, N - 1>>, <<N - 1, 0>>, <<N>>, <<0, -N - 1>>, <<0, 0>>}
Picks == {[kind |-> "all", list |-> << >>]} \cup {[kind |-> "first", list |-> <<k>>] : k \in 1..(N + 1)}
             \cup {[kind |-> "list", list |-> x] : x \in Lists}
\* The reduced learning results are only used within a call
Call(do, c, name) ==
  LET ok == Exists(c.kind, c.list, N)
  IN  /\ Len(hist) < MaxCalls
      /\ out' = IF ok THEN Model(factors, loadings, Chosen(c.kind, c.list, N)) ELSE << >>
      /\ files' = IF ok /\ do = "write" /\ name # "bad" THEN files \cup {name} ELSE files
      /\ hist' = Append(hist, [do |-> do, kind |-> c.kind, list |-> c.list, name |-> name])
      /\ UNCHANGED <<factors, loadings, orig>>
Next == \E c \in Picks : Call("model", c, "") \/ \E n \in {"a", "b", "bad"} : Call("write", c, n)
Spec == Init /\ [][Next]_vars

Kept == <<factors, loadings>> = orig
\* Components add up: disjoint choices give models whose sum is the model of both
Additive ==
  LET all == Model(factors, loadings, Chosen("all", << >>, N))
      a(k) == Model(factors, loadings, Chosen("first", <<k>>, N))
      b(k) == Model(factors, loadings, Chosen("list", [i \in 1..(N - k) |-> k + i - 1], N))
  IN  \A k \in 1..(N - 1) : \A i \in 1..Patterns : \A j \in 1..Pixels : a(k)[i][j] + b(k)[i][j] = all[i][j]
Ordered == \* the order of the components does not matter
  Model(factors, loadings, <<1, N>>) = Model(factors, loadings, <<N, 1>>)
Shape == out # << >> => Len(out) = Patterns /\ \A i \in 1..Patterns : Len(out[i]) = Pixels
=============================================================================
