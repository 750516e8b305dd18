----------------------------- MODULE CarbonGen -----------------------------
(***************************************************************************)
(* Histories of a carbon cycle on its own: it is made, run year by year,   *)
(* set back (with or without new parameters), asked for its yearly output, *)
(* and asked for the emissions behind a concentration path.                *)
(*                                                                         *)
(* done: years run since the last start. Asking for emissions goes through *)
(* the same years, so a start has to come before the next forward year;    *)
(* the calculation itself starts from the preindustrial state whatever     *)
(* was done before.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, TraceIO, Verdict, IOUtils

Dom == Load(IOEnv.DOM)      \* [n, max, labels, box]

VARIABLES hist, done
vars == <<hist, done>>

Init == hist = <<>> /\ done = -1
Labels == {Dom.labels[i] : i \in 1..Len(Dom.labels)}
Temps == {"none", "given"}

New(l) == hist = <<>> /\ done' = 0 /\ hist' = <<[op |-> "new", p |-> l]>>
Years(m, w) ==
  /\ done >= 0 /\ done + m <= Dom.n
  /\ done' = done + m
  /\ hist' = Append(hist, [op |-> "years", m |-> m, temp |-> w])
Reset(l) ==
  /\ hist # <<>> /\ hist[Len(hist)].op # "new"
  /\ done' = 0
  /\ hist' = Append(hist, [op |-> "reset", p |-> l])
Back(w, out) ==
  /\ ~Dom.box /\ hist # <<>>
  /\ done' = -1
  /\ hist' = Append(hist, [op |-> "back", temp |-> w, out |-> out])
Output == done = Dom.n /\ hist' = Append(hist, [op |-> "output"]) /\ UNCHANGED done

Full == Len(hist) >= Dom.max
Finish == Full /\ Emit(<<"HIST", hist>>) /\ FALSE
Next ==
  \/ Finish /\ UNCHANGED vars
  \/ ~Full /\ ( \/ \E l \in Labels : New(l) \/ Reset(l)
                \/ \E m \in {1, 3, Dom.n - 1, Dom.n - done}, w \in Temps : m > 0 /\ Years(m, w)
                \/ \E w \in Temps, o \in {TRUE, FALSE} : Back(w, o)
                \/ Output /\ hist[Len(hist)].op # "output" )
Spec == Init /\ [][Next]_vars

Bounded == done <= Dom.n
=============================================================================
