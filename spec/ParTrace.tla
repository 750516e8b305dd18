------------------------------ MODULE ParTrace ------------------------------
(***************************************************************************)
(* Recorded parallel runs: the rows of the combined table against what a   *)
(* fresh run of each scenario and configuration gives (fresh[scen][cfg]),  *)
(* variables as in Reader. A call that fails has no rows.                  *)
(***************************************************************************)
EXTENDS Reader, TraceIO, IOUtils

Data == Load(IOEnv.TRACES)
Traces == Data.traces

VARIABLES t, k
T == Traces[t]

Init == t \in 1..Len(Traces) /\ k = 0

Rows(scen, id, var) ==
  {i \in 1..Len(T.rows) : T.rows[i].scenario = scen /\ T.rows[i].id = id /\ T.rows[i].variable = var}

Has(obs, var) == Known(var) /\ Available(obs, var)

RowChecks(obs, sc, var, r) ==
  LET d == VDiffer(Values(obs, var), r.values, F("1e-11"), F("1e-13"))
  IN <<<<"unit", r.unit = Unit(sc.units, var), var \o " in " \o r.unit>>,
       <<"years", r.outside = 0, var \o " has values outside the years of the run">>,
       <<"values", d = 0, var \o " differs from a single run at " \o ToString(d)>>,
       <<"labels", r.region = "World" /\ r.model = sc.name, "labelled " \o r.model \o " " \o r.region>>>>

Checks(i, j, q) ==
  LET sc == T.scens[i]
      id == T.ids[j]
      var == T.vars[q]
      obs == sc.fresh[j]
      R == Rows(sc.name, id, var)
      where == "scenario " \o sc.name \o " configuration " \o id \o " " \o var
      n == IF Has(obs, var) THEN 1 ELSE 0
  IN /\ Cardinality(Fails(T.id, where, <<<<"rows", Cardinality(R) = n,
               ToString(Cardinality(R)) \o " rows instead of " \o ToString(n)>>>>)) >= 0
     /\ n = 1 => \A x \in R : Cardinality(Fails(T.id, where, RowChecks(obs, sc, var, T.rows[x]))) >= 0

Alien(r) == \/ \A i \in 1..Len(T.scens) : T.scens[i].name # r.scenario
            \/ \A i \in 1..Len(T.ids) : T.ids[i] # r.id
            \/ \A i \in 1..Len(T.vars) : T.vars[i] # r.variable

Step ==
  /\ k < Len(T.scens) /\ k' = k + 1 /\ UNCHANGED t
  /\ IF "exc" \in DOMAIN T
     THEN Fails(T.id, "call", <<<<"exception", FALSE, T.exc>>>>) # {}
     ELSE \A j \in 1..Len(T.ids), q \in 1..Len(T.vars) : Checks(k + 1, j, q)
Over ==
  /\ k = Len(T.scens) /\ k' = k + 1 /\ UNCHANGED t
  /\ "exc" \notin DOMAIN T =>
       \A i \in 1..Len(T.rows) :
         Cardinality(Fails(T.id, "row " \o ToString(i), <<<<"alien", ~Alien(T.rows[i]), "a row for " \o T.rows[i].scenario \o " "
                            \o T.rows[i].id \o " " \o T.rows[i].variable>>>>)) >= 0
  /\ Cardinality(Fails(T.id, "call", <<<<"untouched", T.mutated = <<>>, ToString(T.mutated)>>>>)) >= 0
  /\ Emit(<<"DONE", T.id>>)
Next == Step \/ Over
Spec == Init /\ [][Next]_<<t, k>>
=============================================================================
