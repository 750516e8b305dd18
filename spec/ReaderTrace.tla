---------------------------- MODULE ReaderTrace ----------------------------
(***************************************************************************)
(* Named output variables read from the results of recorded runs.          *)
(***************************************************************************)
EXTENDS Reader, TraceIO, IOUtils

Data == Load(IOEnv.TRACES)
Traces == Data.traces

VARIABLES t, k
T == Traces[t]
O == T.ops[k]

Ask == IF "NAMES" \in DOMAIN IOEnv
       THEN \A i \in 1..Len(Names) : Emit(<<"NAME", Names[i][1], Names[i][2], IF Names[i][2] = "sum" THEN "" ELSE Names[i][3]>>)
       ELSE TRUE
AskU == IF "NAMES" \in DOMAIN IOEnv
        THEN \A i \in 1..Len(Unknown) : Emit(<<"NAME", Unknown[i], "", "">>)
        ELSE TRUE
Init == Ask /\ AskU /\ k = 1 /\ t \in (IF "NAMES" \in DOMAIN IOEnv THEN {} ELSE 1..Len(Traces))

RECURSIVE Checks(_)
Checks(i) ==
  IF i = 0 THEN TRUE
  ELSE /\ Checks(i - 1)
       /\ Cardinality(Fails(T.id, "op " \o ToString(k) \o " " \o O.reads[i].name,
                            ReadChecks(O.obs, T.units, T.ny0, O.reads[i].name, O.reads[i]))) >= 0

Step ==
  /\ k <= Len(T.ops) /\ k' = k + 1 /\ UNCHANGED t
  /\ IF O.op # "run" THEN TRUE
     ELSE IF "obs" \notin DOMAIN O
     THEN Fails(T.id, "op " \o ToString(k), <<<<"exception", FALSE, IF "exc" \in DOMAIN O THEN O.exc ELSE "no results">>>>) # {}
     ELSE Checks(Len(O.reads))
Over == k = Len(T.ops) + 1 /\ k' = k + 1 /\ UNCHANGED t /\ Emit(<<"DONE", T.id>>)
Next == Step \/ Over
Spec == Init /\ [][Next]_<<t, k>>
=============================================================================
