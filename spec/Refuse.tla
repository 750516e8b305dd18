------------------------------- MODULE Refuse -------------------------------
(***************************************************************************)
(* What is refused. Instances are created from inputs and run with         *)
(* parameters; either may be unusable (a fault). An unusable input is      *)
(* refused at the latest when it is run, an unusable parameter when it is  *)
(* run, and what has been refused leaves nothing behind.                   *)
(*                                                                         *)
(* The faults are those of the inputs of each kind of run. The behaviours  *)
(* are the histories that are replayed into the real code.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceIO, Verdict, IOUtils

Dom == Load(IOEnv.DOM)          \* [insts, modes, max, emit]
Set(s) == {s[i] : i \in 1..Len(s)}

Files(items) == {<<"nofile", x>> : x \in items}
Cuts(items) == {<<c, x>> : c \in {"late", "early", "gap"}, x \in items}
Shorts(items) == {<<"short", x>> : x \in items}
ECFaults ==
  Files({"gaspam", "emissions", "concentrations", "sun", "volc_n", "volc_s", "luc", "perturb_em", "perturb_forc"})
  \cup {<<"absent", x>> : x \in {"gaspam", "emissions", "concentrations"}}
  \cup Cuts({"emissions", "concentrations", "nat_ch4", "nat_n2o"}) \cup Shorts({"sun", "volc_n", "volc_s", "luc", "nat_ch4", "nat_n2o"})
  \cup {<<"unit", x>> : x \in {"emissions", "concentrations", "afolu"}}
  \cup {<<"lacks", x>> : x \in {"emissions", "concentrations"}}
  \cup {<<"lacks and unit", x>> : x \in {"emissions", "concentrations"}}
  \cup {<<"name", x>> : x \in {"thermal", "carbon"}}
  \cup {<<"resp", x>> : x \in {"rs", "rb"}}
RFFaults ==
  Files({"forc", "sun", "volc_n", "volc_s"}) \cup Cuts({"forc"}) \cup Shorts({"forc", "sun", "volc_n", "volc_s"})
  \cup {<<"name", "thermal">>}
NewFaults(mode) == IF mode = "rf" THEN RFFaults ELSE ECFaults
RunFaults(mode) ==
  IF mode = "rf" THEN {}
  ELSE {<<"resp", "rs">>, <<"resp", "rb">>, <<"flat", "rs">>, <<"flat", "rb">>, <<"just", "unknown">>, <<"ref", "outside">>}
OK == <<"ok", "">>

VARIABLES live,     \* instances there are: [mode, fault, set]
          hist,
          out       \* the results there are, of the last run of each instance
vars == <<live, hist, out>>
None == <<>>
Init == live = [i \in {} |-> None] /\ hist = <<>> /\ out = [i \in {} |-> None]

New(i, mode, f, refused) ==
  /\ i \notin DOMAIN live
  /\ refused => f # OK
  /\ live' = IF refused THEN live ELSE (i :> [mode |-> mode, fault |-> f, set |-> "default"]) @@ live
  /\ hist' = Append(hist, [op |-> "new", inst |-> i, mode |-> mode, fault |-> f])
  /\ UNCHANGED out

\* a run that sets the carbon cycle (or does not), with or without a fault
Run(i, f, sets) ==
  /\ i \in DOMAIN live
  /\ LET bad == live[i].fault # OK \/ f # OK
         now == IF sets # "" /\ f = OK THEN sets ELSE live[i].set
     IN /\ live' = [live EXCEPT ![i].set = now]
        /\ out' = IF bad THEN [j \in DOMAIN out \ {i} |-> out[j]]
                  ELSE (i :> [set |-> now]) @@ out
        /\ hist' = Append(hist, [op |-> "run", inst |-> i, fault |-> f, sets |-> sets])

Full == Len(hist) >= Dom.max
Done == Dom.emit /\ Full /\ Emit(<<"HIST", hist>>) /\ FALSE

\* The histories to be replayed go back and forth: something that is to be refused, a run that is not. Whether a
\* creation is refused is then for the code to say.
Last == hist[Len(hist)]
Turn(op, i, f) ==
  IF ~Dom.emit THEN TRUE
  ELSE IF hist = <<>> THEN op = "new" /\ f = OK
  ELSE IF Last.op = "new" /\ Last.fault # OK THEN op = "run" /\ i = Last.inst /\ f = OK
  ELSE IF Last.fault # OK \/ live[Last.inst].fault # OK THEN op = "run" /\ live[i].fault = OK /\ f = OK
  ELSE IF Len(hist) = 1 THEN op = "run" /\ f = OK
  ELSE f # OK /\ (op = "run" => live[i].fault = OK)
Ordered(i) == ~Dom.emit \/ \A j \in 1..Len(Dom.insts) : Dom.insts[j] = i => Cardinality(DOMAIN live) = j - 1

Next ==
  \/ Done /\ UNCHANGED vars
  \/ /\ ~Full
     /\ \/ \E i \in Set(Dom.insts), m \in Set(Dom.modes) : \E f \in NewFaults(m) \cup {OK}, r \in BOOLEAN :
             /\ Ordered(i) /\ Turn("new", i, f)
             /\ (Dom.emit => ~r)
             /\ New(i, m, f, r)
        \/ \E i \in DOMAIN live : \E f \in RunFaults(live[i].mode) \cup {OK}, s \in {"", "x"} :
             /\ Turn("run", i, f)
             /\ (Dom.emit /\ f # OK => s = "")
             /\ Run(i, f, s)
Spec == Init /\ [][Next]_vars

\* results are only ever those of usable inputs and parameters
Usable == \A i \in DOMAIN out : i \in DOMAIN live /\ live[i].fault = OK
\* what was refused has left nothing behind: the carbon cycle is as set by the last run that was carried out
RunsOf(i) == SelectSeq(hist, LAMBDA o : o.inst = i /\ o.op = "run" /\ o.fault = OK /\ o.sets # "")
Nothing == \A i \in DOMAIN live : live[i].set = (IF Len(RunsOf(i)) = 0 THEN "default" ELSE "x")
=============================================================================
