-------------------------- MODULE TraceProcessing --------------------------
EXTENDS TraceBase, Num
S == INSTANCE Processing WITH Methods <- {}, Depth <- 0, ChunkKinds <- {},
       start <- <<>>, sig <- <<>>, hist <- <<>>

(***************************************************************************)
(* A record gives the call, the patterns `ref` that the method gives       *)
(* pattern by pattern (or on the eager signal, if the method combines      *)
(* patterns), and what is observed of the signal (r.self) and of the       *)
(* returned signal (r.out): patterns, data type, shape, laziness and       *)
(* digests of the attributes.                                              *)
(***************************************************************************)
TInit == [self |-> <<>>]

Expected(s, r) == IF r.op = "start" THEN r.self ELSE s.self
TStep(s, r) == [self |-> IF r.op = "call" /\ r.take THEN r.out ELSE r.self]

Near(a, b, tol) == SeqSeqClose(a, b, tol)
Keeps(r) == r.keeps   \* Methods that do not change the detector's shape

Result(r, o) ==
  [ResultData |-> Near(o.data, r.ref.data, r.tol),
   ResultDataType |-> o.dtype = r.ref.dtype,
   ResultShape |-> o.shape = r.ref.shape,
   ResultAxes |-> o.attrs.axes = r.ref.attrs.axes,
   ResultDetector |-> o.attrs.detector = r.ref.attrs.detector,
   ResultBackground |-> o.attrs.bg = r.ref.attrs.bg,
   ResultMap |-> o.attrs.xmap = r.ref.attrs.xmap,
   ResultMetadata |-> o.attrs.metadata = r.ref.attrs.metadata,
   ResultClass |-> o.cls = (IF o.lazy THEN r.lazy_cls ELSE r.cls)]

TClauses(s, r) ==
  IF r.op = "start" THEN [Start |-> TRUE]
  ELSE
    LET c == [inplace |-> r.inplace, lo |-> r.lo]
        b == s.self
        common ==
          [RefusedExactly |-> r.refused = S!Refused(c),
           ReturnsWhenAsked |-> r.refused \/ r.returned = ~r.inplace,
           ReferenceKeepsAttributes |->
             r.keeps => /\ r.ref.attrs = b.attrs
                        /\ r.ref.shape = b.shape]
        untouched ==
          [SelfPatternsKept |-> r.self.data = b.data /\ r.self.digest = b.digest,
           SelfTypeKept |-> r.self.dtype = b.dtype /\ r.self.shape = b.shape,
           SelfAttributesKept |-> r.self.attrs = b.attrs,
           SelfLazinessKept |-> r.self.lazy = b.lazy]
    IN  IF r.refused THEN common @@ untouched
        ELSE IF r.inplace
        THEN common @@ Result(r, r.self) @@
             [SelfLazyAsBefore |-> r.lo = "none" => r.self.lazy = b.lazy]
        ELSE common @@ untouched @@ Result(r, r.out) @@
             [OutLazyWhenAsked |-> r.out.lazy = S!OutLazy(b.lazy, c)]
=============================================================================
