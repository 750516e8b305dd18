-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* What a user may ask for: the dimensions of an instance and of the runs  *)
(* on it, and which combinations are meaningful. Behaviours of this        *)
(* specification (TLC in simulation mode) are the scenarios that are       *)
(* replayed into the real code; a check narrows the choices with DOM.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceIO, Verdict, IOUtils

Dom == Load(IOEnv.DOM)          \* [dims |-> <<name, ...>>, values |-> [name |-> <<...>>], runs]

VARIABLES i, s
vars == <<i, s>>

Is(d, v) == d \in DOMAIN s /\ s[d] = v
Get(d, dflt) == IF d \in DOMAIN s THEN s[d] ELSE dflt

EC == Get("mode", "em") \in {"em", "conc"}
Y0 == Get("y0", 1750)
Y1 == Y0 + Get("n", 30) - 1

\* dimensions of instances that only exist in one kind of run
OnlyEC == {"carbon", "emstart", "idtm", "table", "gasnoise", "newgas", "dropgas", "alphas", "regional",
           "gasform", "emform", "concform", "noise", "nat", "luc", "pem", "pforc", "pemform", "pforcform",
           "resp", "shuffle", "builder", "conv", "zerofactor", "nreg"}
OnlyRF == {"forc", "fshape", "w_aero", "forcform", "faero"}
OnlyUDM == {"grid", "notrend"}
\* of runs
RunEC == {"emi", "life", "ref", "just", "cpars", "cresp", "carbonout", "fixed"}

Applies(d, base) ==
  /\ (d \in OnlyEC \/ base \in RunEC) => EC
  /\ d \in OnlyRF => ~EC
  /\ base \in OnlyUDM => ~Is("thermal", "twolayer")
  /\ d = "vcols" => Get("sv", "off") \notin {"off", "default"}
  /\ d = "pemform" => Get("pem", 0) > 0
  /\ d = "pforcform" => Get("pforc", 0) > 0
  /\ d = "forcform" => Is("forc", "hemi")
  /\ d = "faero" => Is("forc", "comp")
  /\ d = "w_aero" => Get("forc", "array") \in {"hemi", "comp"}
  /\ d \in {"builder", "nreg"} => Get("regional", "none") # "none"
  /\ d \in {"conv", "zerofactor"} => Get("builder", "") # ""
  /\ d \in {"resp", "idtm"} => ~Is("carbon", "box")
  /\ base = "cresp" => ~Is("carbon", "box")

Valid(d, base, v) ==
  \* the year files start in 1750
  /\ d = "n" => Y0 + v - 1 <= 2500
  \* sub-year steps cost
  /\ d = "idtm" => v * Get("n", 30) <= 6000
  \* the TAR methane lifetime refers to the year 2000
  /\ (base = "life" /\ v = "TAR") => (Is("mode", "conc") \/ (Y0 <= 2000 /\ 2000 <= Y1))
  /\ (d = "nat" /\ v = "file") => Y0 >= 1750
  \* far outside the range of the ocean chemistry CO2 can run away; the upwelling-diffusion solver
  \* refuses what is not finite, the two-layer model passes it on
  /\ (d = "noise" /\ v \in {"extreme", "drawdown", "hump"}) => Is("thermal", "twolayer")
  \* the emissions of the reference year of methane are needed from there on

Emstart(v) ==
  CASE v = "default" -> 1850
    [] v = "before" -> Y0 - 7
    [] v = "first" -> Y0
    [] v = "second" -> Y0 + 1
    [] v = "third" -> Y0 + 2
    [] v = "mid" -> Y0 + (Y1 - Y0) \div 2
    [] v = "lastbut1" -> Y1 - 1
    [] v = "last" -> Y1
    [] OTHER -> Y1 + 4

Init == i = 1 /\ s = [x \in {} |-> 0]

Step ==
  /\ i <= Len(Dom.dims)
  /\ LET dd == Dom.dims[i]
         d == dd.name
         base == dd.base
         vs == Dom.values[d]
     IN IF ~Applies(d, base) THEN s' = s
        ELSE \E j \in 1..Len(vs) :
               /\ Valid(d, base, vs[j])
               /\ s' = (d :> vs[j]) @@ s
  /\ i' = i + 1

Finish == i = Len(Dom.dims) + 1 /\ Emit(<<"SCEN", s, Emstart(Get("emstart", "default"))>>) /\ i' = i + 1 /\ UNCHANGED s
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
