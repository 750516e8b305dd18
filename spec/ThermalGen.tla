---------------------------- MODULE ThermalGen ----------------------------
(***************************************************************************)
(* Histories of thermal models on their own: up to two of them are made,   *)
(* stepped through years in any interleaving, told the aerosol share of    *)
(* the coming years, asked for their feedback, and replaced by new ones.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TraceIO, Verdict, IOUtils

Dom == Load(IOEnv.DOM)      \* [max, labels, shapes, volc]

VARIABLES hist, made
vars == <<hist, made>>

Set(s) == {s[i] : i \in 1..Len(s)}
Init == hist = <<>> /\ made = {}

\* a model with parameters of class l; like: the same parameters as another's
New(i, l, like) ==
  /\ like => made \ {i} # {}
  /\ made' = made \cup {i}
  /\ hist' = Append(hist, [op |-> "new", inst |-> i, p |-> l, like |-> like])
Share(i, w) == i \in made /\ hist' = Append(hist, [op |-> "share", inst |-> i, w |-> w]) /\ UNCHANGED made
Years(i, m, f, v) ==
  i \in made /\ hist' = Append(hist, [op |-> "years", inst |-> i, m |-> m, f |-> f, v |-> v]) /\ UNCHANGED made

Full == Len(hist) >= Dom.max
Finish == Full /\ Emit(<<"HIST", hist>>) /\ FALSE
Next ==
  \/ Finish /\ UNCHANGED vars
  \/ ~Full /\ \E i \in {"a", "b"} :
       \/ \E l \in Set(Dom.labels), b \in {TRUE, FALSE} : New(i, l, b)
       \/ \E w \in {"zero", "some", "one", "back"} : Share(i, w)
       \/ \E m \in {1, 2, 5}, f \in Set(Dom.shapes), v \in Set(Dom.volc) : Years(i, m, f, v)
Spec == Init /\ [][Next]_vars
=============================================================================
