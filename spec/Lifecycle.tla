----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* Instances and the runs made on them.                                    *)
(*                                                                         *)
(* An instance is created from inputs and then run any number of times,    *)
(* each run with (or without) parameters of the thermal model (th), of     *)
(* emissions and forcing (em) and of the carbon cycle (ca), and delivering *)
(* its results in one of several ways (out). A run may break off.          *)
(*                                                                         *)
(* Two descriptions are carried along: what the results should depend on   *)
(* (`want`), and how the code keeps it, as parameter tables that live in   *)
(* the instance and are updated by each run (`pam`, `cpam`, `res`). The    *)
(* invariant Agree says that the second always comes to the first.         *)
(*                                                                         *)
(* The behaviours are also the histories replayed into the real code       *)
(* (Emit at the end of a behaviour).                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceIO, Verdict, IOUtils

Dom == Load(IOEnv.DOM)
Insts == {Dom.insts[i] : i \in 1..Len(Dom.insts)}
Ins == {Dom.inputs[i] : i \in 1..Len(Dom.inputs)}
Set(s) == {s[i] : i \in 1..Len(s)}

VARIABLES live, hist, want, got,
  part      \* the run being put together
vars == <<live, hist, want, got, part>>

\* Names of parameters and the sets of them that a run may give. Labels are
\* opaque to the model except for what they set: label l sets parameters
\* Names(l), each to value l.
EmNames == {"p", "q", "just_one"}
CaNames == {"f", "g"}
Gives(l) == CASE l = "none" -> {}
              [] l = "just" -> {"just_one"}
              [] l = "few" -> {"p"}
              [] OTHER -> {"p", "q"}
CaGives(l) == CASE l = "none" -> {}
                [] l = "few" -> {"f"}
                [] OTHER -> {"f", "g"}
Products(o) == CASE o = "dict" -> {"thermal", "tables"}
                 [] o = "carbon" -> {"thermal", "tables", "carbon"}
                 [] OTHER -> {"thermal"}

\* what the results of a run should depend on
Upd(f, S, v) == [n \in DOMAIN f |-> IF n \in S THEN v ELSE f[n]]
Wanted(cas, th, em) ==
  [th |-> th,
   em |-> [n \in EmNames |-> IF n \in Gives(em) THEN em ELSE "default"],
   ca |-> cas]

\* the tables of the instance after a run has set its parameters
SetPam(old, em) ==
  [n \in EmNames |-> IF n \in Gives(em) THEN em ELSE "default"]
SetCpam(old, ca) == Upd(old, CaGives(ca), ca)

None == <<>>
Fresh(in) == [in |-> in, pam |-> [n \in EmNames |-> "default"], cpam |-> [n \in CaNames |-> "default"],
              abs |-> [n \in CaNames |-> "default"], res |-> {}]

Init == live = [i \in {} |-> None] /\ hist = <<>> /\ want = None /\ got = None /\ part = None

Create(i, in) ==
  /\ i \notin DOMAIN live
  \* instances are created in order
  /\ \A j \in 1..Len(Dom.insts) : Dom.insts[j] = i => Cardinality(DOMAIN live) = j - 1
  /\ live' = (i :> Fresh(in)) @@ live
  /\ hist' = Append(hist, [op |-> "new", inst |-> i, inputs |-> in])
  /\ want' = None /\ got' = None

Run(i, th, em, ca, out, broken) ==
  /\ i \in DOMAIN live
  /\ LET L == live[i]
         pam == SetPam(L.pam, em)
         cpam == SetCpam(L.cpam, ca)
         abs == Upd(L.abs, CaGives(ca), ca)
     IN /\ live' = [live EXCEPT ![i] =
               [@ EXCEPT !.pam = pam, !.cpam = cpam, !.abs = abs,
                         \* results of the run before are dropped at the start
                         !.res = IF broken THEN {} ELSE Products(out)]]
        /\ want' = IF broken THEN None ELSE [key |-> Wanted(abs, th, em), res |-> Products(out)]
        /\ got' = IF broken THEN None ELSE [key |-> [th |-> th, em |-> pam, ca |-> cpam], res |-> live'[i].res]
        /\ hist' = Append(hist, [op |-> "run", inst |-> i, th |-> th, em |-> em, ca |-> ca, out |-> out,
                                 broken |-> broken])

\* A run is put together choice by choice: the instance, then the parameters
\* of the three components and the way the results are delivered.
\*
\* With Dom.base histories go back and forth between a base and runs that
\* differ from it in the parameters of one component, each such run once.
HasBase == "base" \in DOMAIN Dom
Runs == SelectSeq(hist, LAMBDA o : o.op = "run")
AtBase == Len(Runs) % 2 = 0
Used(x, l) == \E j \in 1..Len(Runs) : Runs[j][x] = l

Choices(x) ==
  IF ~HasBase THEN Set(Dom[x])
  ELSE IF AtBase \/ part.differs # x THEN {Dom.base[x]}
  ELSE {l \in Set(Dom[x]) : l # Dom.base[x] /\ ~Used(x, l)}

Differs == IF HasBase /\ ~AtBase THEN {x \in {"th", "em", "ca"} : \E l \in Set(Dom[x]) : l # Dom.base[x] /\ ~Used(x, l)}
           ELSE {""}
Order == <<"th", "em", "ca">>

Full == Len(hist) >= Dom.max
Done == Full /\ hist # <<>> /\ Emit(<<"HIST", hist>>) /\ FALSE

Choose ==
  \/ /\ part = None
     /\ \E i \in DOMAIN live, d \in Differs, b \in (IF Dom.broken THEN {TRUE, FALSE} ELSE {FALSE}) :
          part' = [inst |-> i, differs |-> d, broken |-> b, got |-> <<>>]
  \/ /\ part # None /\ Len(part.got) < 3
     /\ \E l \in Choices(Order[Len(part.got) + 1]) : part' = [part EXCEPT !.got = Append(@, l)]

Next ==
  \/ Done /\ UNCHANGED vars
  \/ /\ ~Full
     /\ \/ Choose /\ UNCHANGED <<live, hist, want, got>>
        \/ part = None /\ \E i \in Insts, in \in Ins : Create(i, in) /\ part' = None
        \/ /\ part # None /\ Len(part.got) = 3
           /\ IF part.broken THEN Run(part.inst, "none", part.got[2], part.got[3], "dict", TRUE)
              ELSE \E out \in Set(Dom.out) : Run(part.inst, part.got[1], part.got[2], part.got[3], out, FALSE)
           /\ part' = None
Spec == Init /\ [][Next]_vars

Agree == want = got
=============================================================================
