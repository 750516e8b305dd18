---------------------------- MODULE DistroTrace ----------------------------
(***************************************************************************)
(* Recorded configurations against Distro. An event is a call that makes   *)
(* configurations                                                          *)
(*   [op |-> "make", dist |-> name :> <<lo, hi>>, fixed |-> name :> value, *)
(*    forc, method, n, m, pre, chunks |-> <<<<cfg, ...>>, ...>>, nested,   *)
(*    files |-> <<[cfgs, hasmeta, meta]>>, wants, meta]                    *)
(* or a round trip through DistributionRun                                 *)
(*   [op |-> "trip", cfgs, got, meta, gotmeta].                            *)
(* A configuration is [id, udm, emi, carbon], parameters as in Params.     *)
(***************************************************************************)
EXTENDS Params, Verdict, FiniteSets, TLC, TraceIO, IOUtils

D == INSTANCE Distro WITH num <- 0, max <- 0, taken <- 0, chunks <- <<>>

Data == Load(IOEnv.TRACES)
Traces == Data.traces
VARIABLES t, k
T == Traces[t]
E == T.events[k + 1]
Init == t \in 1..Len(Traces) /\ k = 0

Sets == {"udm", "emi", "carbon"}
Dist == DOMAIN E.dist
Fixed == DOMAIN E.fixed
Names == SetToSeq(D!Sampled(Dist, Fixed, E.forc))

All == FlattenSeq(E.chunks)
\* the values of a sampled parameter, over all chunks
Column(n) == V([i \in 1..Len(All) |-> All[i][D!Route(n)][n].v])
Complete(c) == \A s \in Sets : D!Has(Dist, Fixed, E.forc, s) = DOMAIN c[s]
Numbers(c) == \A n \in D!Sampled(Dist, Fixed, E.forc) : c[D!Route(n)][n].k = "num"
SameValue(a, b) == IF a.k = "num" THEN b.k = "num" /\ FEq(a.v, b.v) ELSE a = b
Holds(c) == \A n \in Fixed : SameValue(E.fixed[n], c[D!Route(n)][n])

\* sorted, the i-th value of n lies in the i-th of n equal parts of the interval
Strata(n) ==
  LET lo == E.dist[n][1]
      hi == E.dist[n][2]
      w == (hi \ominus lo) \oslash FI(E.n)
      eps == F("1e-9") \otimes (hi \ominus lo)
      s == VSort(Column(n))
  IN \A i \in 1..Len(s) :
       /\ FLe((lo \oplus (w \otimes FI(i - 1))) \ominus eps, s[i])
       /\ FLe(s[i], (lo \oplus (w \otimes FI(i))) \oplus eps)
Within(n) == LET c == Column(n) IN \A i \in 1..Len(c) : FLe(E.dist[n][1], c[i]) /\ FLe(c[i], E.dist[n][2])

\* seven standard errors
Seven(n) == F("7") \oslash FSqrt(FI(n))
Centre(n) == Half \otimes (E.dist[n][1] \oplus E.dist[n][2])
Dev(n) == FAbs(Half \otimes (E.dist[n][2] \ominus E.dist[n][1]))
Normal(n) ==
  LET c == Column(n)
      x == VAdd(c, VConst(Len(c), FNeg(Centre(n))))
      sd == Dev(n)
      var == VMean(VMul(x, x)) \oslash (sd \otimes sd)
  IN /\ FLe(FAbs(VMean(x)), sd \otimes Seven(E.n))
     /\ FLe(FAbs(var \ominus One), Seven(E.n) \otimes FSqrt(Two))
Corr(a, b) ==
  LET p == Column(a)
      q == Column(b)
      x == VAdd(p, VConst(E.n, FNeg(VMean(p))))
      y == VAdd(q, VConst(E.n, FNeg(VMean(q))))
  IN VDot(x, y) \oslash FSqrt(VDot(x, x) \otimes VDot(y, y))
Big == E.n >= 200
\* neighbours in name order are enough to see parameters that share their samples
Apart == \A i \in 2..Len(Names) : FLe(FAbs(Corr(Names[i], Names[i - 1])), Seven(E.n))

Flatten(names, Op(_, _)) == FlattenSeq([i \in 1..Len(names) |-> Op(names[i], i)])
MakeChecks ==
  LET cc == D!ChunkCount(E.n, E.m)
  IN <<<<"chunks", Len(E.chunks) = cc, ToString(Len(E.chunks)) \o " chunks instead of " \o ToString(cc)>>,
       <<"nested", E.nested = (E.m > 0 /\ E.m <= E.n), "nested: " \o ToString(E.nested)>>,
       <<"total", Len(All) = E.n, ToString(Len(All)) \o " configurations instead of " \o ToString(E.n)>>>>
     \o [i \in 1..Len(E.chunks) |->
          <<"size", E.m = 0 \/ Len(E.chunks[i]) <= E.m \/ E.m > E.n, "chunk " \o ToString(i) \o " has " \o ToString(Len(E.chunks[i]))>>]
     \o <<<<"ids", Cardinality({All[i].id : i \in 1..Len(All)}) = Len(All), "identifiers are not distinct">>,
          <<"prefix", \A i \in 1..Len(All) : D!Starts(All[i].id, E.pre), "an identifier does not start with " \o E.pre>>,
          <<"complete", \A i \in 1..Len(All) : Complete(All[i]), "sampled " \o ToString(D!Sampled(Dist, Fixed, E.forc))
             \o " fixed " \o ToString(Fixed) \o " got " \o ToString([s \in Sets |-> DOMAIN All[1][s]])>>>>

ValueChecks ==
  <<<<"fixed", \A i \in 1..Len(All) : Holds(All[i]), "a fixed value is not the given one">>,
    <<"numbers", \A i \in 1..Len(All) : Numbers(All[i]), "a sampled value is not a number">>>>
SampleChecks ==
  [i \in 1..Len(Names) |->
     IF E.method = "latin"
     THEN <<"latin", Within(Names[i]) /\ Strata(Names[i]), Names[i] \o " is not a latin hypercube over its interval">>
     ELSE <<"gaussian", Big => Normal(Names[i]), Names[i] \o " is not normal as given">>]
  \o <<<<"finite", \A i \in 1..Len(Names) : LET c == Column(Names[i]) IN \A j \in 1..Len(c) : FFinite(c[j]), "not finite">>,
       <<"independent", Big => Apart, "parameters share samples">>>>

SameSet(a, b) == DOMAIN a = DOMAIN b /\ \A n \in DOMAIN a : SameValue(a[n], b[n])
SameCfg(a, b) == a.id = b.id /\ \A s \in Sets : SameSet(a[s], b[s])
SameList(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameCfg(a[i], b[i])

\* each chunk is in a file of its own, with the meta information if there is any
FileChecks ==
  IF ~E.wants THEN <<<<"files", E.files = <<>>, "files that were not asked for">>>>
  ELSE <<<<"files", Len(E.files) = Len(E.chunks), ToString(Len(E.files)) \o " files for " \o ToString(Len(E.chunks)) \o " chunks">>,
         <<"filed", \A i \in 1..Len(E.chunks) : \E j \in 1..Len(E.files) : SameList(E.chunks[i], E.files[j].cfgs),
           "a chunk is in no file">>,
         <<"meta", \A j \in 1..Len(E.files) : E.files[j].meta = E.meta, "meta information differs">>>>

TripChecks ==
  <<<<"trip", SameList(E.cfgs, E.got), "configurations changed on the way through a file">>,
    <<"tripmeta", E.meta = E.gotmeta, "meta information " \o E.meta \o " came back as " \o E.gotmeta>>>>

Where == "event " \o ToString(k + 1)
Say(cs) == Fails(T.id, Where, cs)
Step ==
  /\ k < Len(T.events) /\ k' = k + 1 /\ UNCHANGED t
  /\ IF "exc" \in DOMAIN E THEN Cardinality(Say(<<<<"exception", FALSE, E.exc>>>>)) >= 0
     ELSE IF E.op = "trip" THEN Cardinality(Say(TripChecks)) >= 0
     ELSE IF Say(MakeChecks) = {} /\ Say(ValueChecks) = {}
          THEN Cardinality(Say(SampleChecks \o FileChecks)) >= 0 ELSE TRUE
Over ==
  /\ k = Len(T.events) /\ k' = k + 1 /\ UNCHANGED t
  /\ Cardinality(Fails(T.id, "end", <<<<"untouched", T.mutated = <<>>, ToString(T.mutated)>>>>)) >= 0
  /\ Emit(<<"DONE", T.id>>)
Next == Step \/ Over
Spec == Init /\ [][Next]_<<t, k>>
=============================================================================
