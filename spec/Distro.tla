------------------------------- MODULE Distro -------------------------------
(***************************************************************************)
(* Configurations from a distribution: which parameters a configuration    *)
(* has and where, and how n samples are dealt out into chunks of at most m *)
(* (m = 0: no chunks). As a state machine, the samples are taken one by    *)
(* one; the sampling itself is left open but for the interval and, for     *)
(* latin hypercubes, the strata (DistroTrace).                             *)
(***************************************************************************)
EXTENDS Params, Verdict, FiniteSets, TLC, TraceIO, IOUtils

Thermal == DOMAIN UdmDefaults \cup DOMAIN TwoLayerDefaults
Carbon == DOMAIN JoosDefaults(One) \cup DOMAIN BoxDefaults

Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* the parameter set of the component that uses a parameter
Route(n) ==
  CASE n \in Thermal -> "udm"
    [] n \in Carbon \/ Starts(n, "rb_") \/ Starts(n, "rs_") -> "carbon"
    [] OTHER -> "emi"

\* the parameters that are sampled: not those with a fixed value, and only those of the thermal model for forcing runs
Sampled(dist, fixed, forc) == {n \in dist \ fixed : forc => Route(n) = "udm"}

\* what a configuration has in a parameter set
Has(dist, fixed, forc, set) == {n \in Sampled(dist, fixed, forc) \cup fixed : Route(n) = set}

ChunkCount(n, m) == IF m = 0 \/ m > n THEN 1 ELSE (n + m - 1) \div m
ChunkSize(n, m, k) == IF m = 0 \/ m > n THEN n ELSE IF k < ChunkCount(n, m) THEN m ELSE n - (k - 1) * m

-----------------------------------------------------------------------------
Dom == Load(IOEnv.DOM)
VARIABLES num, max, taken, chunks          \* chunks: sequences of samples 1..num
vars == <<num, max, taken, chunks>>

Init == num \in 1..Dom.n /\ max \in 0..Dom.m /\ taken = 0 /\ chunks = <<>>
Full(c) == IF max = 0 \/ max > num THEN FALSE ELSE Len(c) = max
Take ==
  /\ taken < num /\ taken' = taken + 1 /\ UNCHANGED <<num, max>>
  /\ IF chunks = <<>> THEN chunks' = <<<<1>>>>
     ELSE LET last == chunks[Len(chunks)]
          IN chunks' = IF Full(last) THEN Append(chunks, <<taken + 1>>)
                       ELSE [chunks EXCEPT ![Len(chunks)] = Append(last, taken + 1)]
Next == Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* nothing lost, nothing twice, in order
InOrder == FlattenSeq(chunks) = [i \in 1..taken |-> i]
Small == max > 0 /\ max <= num => \A k \in 1..Len(chunks) : Len(chunks[k]) <= max
\* the closed form used for what is recorded
Closed == taken = num => /\ Len(chunks) = ChunkCount(num, max)
                         /\ \A k \in 1..Len(chunks) : Len(chunks[k]) = ChunkSize(num, max, k) /\ Len(chunks[k]) > 0
Ends == <>(taken = num)

\* a parameter belongs to one component
ASSUME Thermal \cap Carbon = {}
ASSUME (Thermal \cup Carbon) \cap DOMAIN EmiconcDefaults = {}
ASSUME \A n \in DOMAIN EmiconcDefaults : Route(n) = "emi"
ASSUME \A f \in BOOLEAN : \A D, X \in SUBSET {"W", "beta_f", "qo3", "rs_tim1"} :
         /\ Cardinality(Has(D, X, f, "udm")) + Cardinality(Has(D, X, f, "carbon")) + Cardinality(Has(D, X, f, "emi"))
              = Cardinality(Sampled(D, X, f) \cup X)
         /\ ~f => Sampled(D, X, f) \cup X = D \cup X
=============================================================================
