---------------------------- MODULE SystemTrace ----------------------------
(***************************************************************************)
(* Recorded histories of the real model against the specification.         *)
(*                                                                         *)
(* A trace is a history of operations on any number of instances           *)
(*   [op |-> "new", inst, in]           in: index of the instance's inputs *)
(*   [op |-> "run", inst, udm, emi, carbon, ...options, obs]               *)
(* with obs what the run returned. The state is what the specification     *)
(* says an instance keeps between runs (carbon cycle parameters, response  *)
(* functions) and, during a run, the state of its components. A year of a  *)
(* run is one step. Every quantity of the year is checked against what the *)
(* specification derives from the quantities it depends on, those being    *)
(* taken as recorded, so that a deviation shows up where it arises.        *)
(***************************************************************************)
EXTENDS Verdict, TraceIO, Params, Forcing, Joos, Box, TwoLayer, Udm, Regional, FiniteSets, IOUtils

Data == Load(IOEnv.TRACES)
Traces == Data.traces
Inputs == Data.inputs

VARIABLES
  t,        \* trace
  k,        \* operation in progress (or next)
  y,        \* years done in the current run, -1: no run in progress
  cur,      \* per instance: carbon cycle parameters and response functions
  pars,     \* parameters of the run: th, em, ca, mode, rs, rb
  ths,      \* thermal state
  cas,      \* carbon cycle state
  prod,     \* (concentration driven) land production, all steps so far
  cum       \* cumulative CO2 emissions
vars == <<t, k, y, cur, pars, ths, cas, prod, cum>>

T == Traces[t]
O == T.ops[k]
In == Inputs[O["in"]]
Obs == O.obs
None == <<>>

RT == F("1e-9")
AT == F("1e-10")

-----------------------------------------------------------------------------
\* Beginning and end of operations

NewCarbon(in, init) ==
  IF in.carbon = "box" THEN [par |-> BoxDefaults, rs |-> None, rb |-> None]
  ELSE [par |-> JoosDefaults(At(in.conc["CO2"], in.ny0)),
        rs |-> JGiven([k |-> "default"], init, "rs"),
        rb |-> JGiven([k |-> "default"], init, "rb")]

SetCarbon(in, c, p) ==
  IF in.carbon = "box" THEN [c EXCEPT !.par = Persist(@, p)]
  ELSE [par |-> Persist(c.par, p), rs |-> JGiven(c.rs, p, "rs"), rb |-> JGiven(c.rb, p, "rb")]

Idle(c) == /\ y' = -1
           /\ k' = k + 1
           /\ cur' = c
           /\ pars' = None /\ ths' = None /\ cas' = None /\ prod' = None /\ cum' = None
           /\ UNCHANGED t

\* What has to be there at all: the keys of the results, the columns of the
\* tables, one value per year
ThermalNames(model) ==
  IF model = "twolayer"
  THEN {"dT_glob", "dT_fast", "dT_slow", "RIB_glob", "OHC_MIXED", "OHC_DEEP", "OHC700", "OHCTOT"}
  ELSE {"dT_glob", "dT_NH", "dT_SH", "dT_glob_air", "dT_NH_air", "dT_SH_air", "dT_glob_sea",
        "dT_NH_sea", "dT_SHsea", "RIB_glob", "RIB_N", "RIB_S", "OHC700", "OHCTOT"}
ForcingNames == {"Total_forcing", "Solar_forcing", "Volcanic_forcing_NH", "Volcanic_forcing_SH"}

Shown(g) == IF g = "SO2" THEN "SO4_DIR" ELSE g
EmCols(in) == ((DOMAIN in.em) \ {"CO2_FF", "CO2_AFOLU"}) \cup {"CO2"}
ConcCols(in) == {g \in DOMAIN in.gases : in.gases[g].conc} \cup {"TROP_O3"}
ForcCols(in) == {Shown(g) : g \in DOMAIN in.gases} \cup {"Total_forcing"}
CarbonCols(in) ==
  IF in.carbon = "box"
  THEN {"Net primary production", "Ocean carbon flux"} \cup
       (IF in.concrun THEN {} ELSE {"Airborne fraction CO2"})
  ELSE {"Biosphere carbon flux", "Ocean carbon flux", "Mixed layer depth", "CO2 solubility",
        "Net Primary Production", "Airborne fraction CO2"} \cup
       (IF in.concrun THEN {"Emissions"} ELSE {})

ResultKeys(in, o) ==
  ThermalNames(in.thermal) \cup ForcingNames \cup
  (IF in.mode = "ec" /\ o.dict THEN {"emissions", "concentrations", "forcing"} ELSE {}) \cup
  (IF in.mode = "ec" /\ o.dict /\ o.carbonout THEN {"carbon cycle"} ELSE {})

Range(s) == {s[i] : i \in 1..Len(s)}
SetMsg(exp, got) == "missing " \o ToString(exp \ got) \o " unexpected " \o ToString(got \ exp)

Table(name, key, cols, in, obs) ==
  IF key \notin DOMAIN obs.tables THEN <<>>
  ELSE LET tab == obs.tables[key]
           n == in.n
       IN <<<<"shape." \o name, DOMAIN tab.cols = cols, SetMsg(cols, DOMAIN tab.cols)>>,
            <<"shape." \o name, Len(tab.names) = Cardinality(Range(tab.names)), "a column appears twice">>,
            <<"years." \o name, tab.years = [i \in 1..n |-> in.ny0 + i - 1],
              ToString(tab.years)>>,
            <<"shape." \o name, \A c \in DOMAIN tab.cols : Len(tab.cols[c]) = n, "column length">>>>

ShapeChecks(in, o, obs) ==
  <<<<"keys", Range(obs.keys) = ResultKeys(in, o), SetMsg(ResultKeys(in, o), Range(obs.keys))>>,
    <<"shape.results", \A n \in DOMAIN obs.series : Len(obs.series[n]) = in.n, "series length">>>>
  \o Table("emissions", "emissions", EmCols(in), in, obs)
  \o Table("concentrations", "concentrations", ConcCols(in), in, obs)
  \o Table("forcing", "forcing", ForcCols(in), in, obs)
  \o Table("carbon", "carbon cycle", CarbonCols(in), in, obs)

-----------------------------------------------------------------------------
Init ==
  /\ t \in 1..Len(Traces)
  /\ k = 1 /\ y = -1
  /\ cur = [i \in {} |-> None]
  /\ pars = None /\ ths = None /\ cas = None /\ prod = None /\ cum = None

Failed == "exc" \in DOMAIN O
Alive == <<<<"exception", ~Failed, IF Failed THEN O.exc ELSE "">>>>
\* what the caller handed in is as it was, and so are, at the end of the history, results of this run that were kept
Untouched == <<<<"untouched", O.mutated = <<>>, ToString(O.mutated)>>>>
             \o IF "later" \in DOMAIN O THEN <<<<"kept", O.later = <<>>, "results changed by later runs: " \o ToString(O.later)>>>> ELSE <<>>

New ==
  /\ y = -1 /\ k <= Len(T.ops) /\ O.op = "new"
  /\ Fails(T.id, "new", Alive) = {}
  /\ Fails(T.id, "new", Untouched) \subseteq 1..2
  \* the gas table the instance was given, where the code made it
  /\ "reg" \in DOMAIN In => Fails(T.id, "new", RegChecks(In.reg)) \subseteq 1..4
  /\ Idle((O.inst :> (IF In.mode = "ec" THEN NewCarbon(In, O.carbon) ELSE None)) @@ cur)

Start0 ==
  LET c == IF In.mode = "ec" THEN SetCarbon(In, cur[O.inst], O.carbon) ELSE None
      th == Resolve(ThermalDefaults(In.thermal), O.udm)
      joos == In.mode = "ec" /\ In.carbon # "box"
      steps == In.n * In.idtm
  IN /\ Fails(T.id, "run", Alive) = {}
     /\ Fails(T.id, "run", Untouched) \subseteq 1..2
     /\ Fails(T.id, "run", ShapeChecks(In, O, Obs)) = {}
     /\ y' = 0
     /\ cur' = [cur EXCEPT ![O.inst] = c]
     /\ pars' = [th |-> th,
                 em |-> IF In.mode = "ec" THEN Resolve(EmiconcDefaults, O.emi) ELSE None,
                 ca |-> IF In.mode = "ec" THEN c.par ELSE None,
                 rs |-> IF joos THEN JRs(c.rs, steps, In.idtm) ELSE None,
                 rb |-> IF joos THEN JRb(c.rb, steps, In.idtm) ELSE None]
     /\ ths' = IF In.thermal = "twolayer" THEN TLInit ELSE UInit(th)
     /\ cas' = IF In.mode # "ec" THEN None ELSE IF joos THEN JInit(c.par) ELSE BInit
     /\ prod' = <<>>
     /\ cum' = Zero
     /\ UNCHANGED <<t, k>>

Begin == y = -1 /\ k <= Len(T.ops) /\ O.op = "run" /\ Start0

-----------------------------------------------------------------------------
\* A year

Yr == In.ny0 + y
I == y + 1                      \* position of the year in recorded series
S(n) == Obs.series[n][I]
Has(key) == key \in DOMAIN Obs.tables
Tab(key, col) == Obs.tables[key].cols[col][I]
RecConc(g, yr) == Obs.tables["concentrations"].cols[g][yr - In.ny0 + 1]
PrevTemp == IF y = 0 THEN Zero ELSE Obs.series["dT_glob"][y]

EmissionChecks ==
  V([i \in 1..Len(In.emnames) |->
     LET g == In.emnames[i]
         e == IF g = "CO2" THEN CO2Emission(In, Yr) ELSE Emission(In, g, Yr)
     IN Near("em." \o g, e, Tab("emissions", g), RT, AT)])

\* all gases but CO2
ConcChecks ==
  V([i \in 1..Len(In.concnames) |->
     LET g == In.concnames[i]
         prev == IF y = 0 THEN Zero ELSE RecConc(g, Yr - 1)
         e == IF g = "TROP_O3" THEN ConcTropO3(In, FToInt(pars.em.ref_yr), RecConc("CH4", Yr), Yr)
              ELSE Conc(In, O.lifetime, g, Yr, prev)
     IN Near("conc." \o g, e, RecConc(g, Yr), RT, AT)])

ForcChecks ==
  V([i \in 1..Len(In.gasnames) |->
     LET g == In.gasnames[i]
     IN Near("forc." \o g, ComponentForcing(In, pars.em, g, Yr, RecConc),
             Tab("forcing", Shown(g)), RT, F("1e-12"))])

\* this year's recorded components
RecForc == [g \in DOMAIN In.gases |-> Tab("forcing", Shown(g))]

Sun == At(In.sun, Yr)
VolcN == In.vn[I]
VolcS == In.vs[I]

\* forcing of the hemispheres and the aerosol share
Drive ==
  IF In.mode = "rf"
  THEN [n |-> FxNorth(In, Yr) \oplus Sun, s |-> FxSouth(In, Yr) \oplus Sun, w |-> FxShare(In, Yr)]
  ELSE LET f == RecForc
           g == IF O.justone = "" THEN f ELSE [x \in {O.justone} |-> f[O.justone]]
       IN [n |-> NorthForcing(g) \oplus Sun, s |-> SouthForcing(g) \oplus Sun,
           w |-> AerosolShare(In.gases, f)]

TotalChecks ==
  IF In.mode = "rf"
  THEN <<Near("fxtotal", FxTotal(In, Yr) \oplus Sun, S("Total_forcing"), RT, AT)>>
  ELSE IF ~O.dict THEN <<>>
  ELSE LET e == IF O.justone = "" THEN TotalForcing(RecForc) ELSE RecForc[O.justone]
       IN <<Near("total", e, Tab("forcing", "Total_forcing"), RT, AT),
            Near("total.results", e, S("Total_forcing"), RT, AT)>>

SunVolcChecks ==
  <<Near("sun", Sun, S("Solar_forcing"), RT, AT),
    Near("volc.n", VMean(VolcN), S("Volcanic_forcing_NH"), RT, AT),
    Near("volc.s", VMean(VolcS), S("Volcanic_forcing_SH"), RT, AT)>>

Thermal ==
  IF In.thermal = "twolayer"
  THEN LET d == Drive
           lam == TLFeedback(pars.th, d.w)
           f == TLForcing(d.n, d.s, VolcN, VolcS)
           s == TLNext(pars.th, ths, lam, f)
       IN [st |-> s, out |-> TLOut(pars.th, s, lam, f), ok |-> TLConserves(pars.th, ths, s, lam, f)]
  ELSE LET d == Drive
           r == UNext(pars.th, UConsts(pars.th, UFeedback(pars.th, d.w)), ths, d.n, d.s, VolcN, VolcS)
       IN [st |-> r.st, out |-> r.out, ok |-> TRUE]

ThermalChecks(r) ==
  V([i \in 1..Len(In.thnames) |->
     LET n == In.thnames[i]
     IN Near("thermal." \o n, r.out[n], S(n), RT,
             IF n \in {"OHC700", "OHCTOT", "OHC_DEEP", "OHC_MIXED"} THEN F("1e-8") ELSE F("1e-9"))])

\* CO2 and the carbon cycle of the year
IsJoos == In.mode = "ec" /\ In.carbon # "box"
CO2In == CO2Emission(In, Yr) \oplus In.gases["CO2"].nat
\* concentration driven: the back-calculated emissions, this year's temperature
BackCalc == In.concrun /\ IsJoos /\ O.dict /\ O.carbonout

Carbon ==
  IF In.concrun
  THEN IF BackCalc
       THEN JNext(pars.ca, pars.rs, pars.rb, In.idtm, cas, Tab("carbon cycle", "Emissions"), S("dT_glob"))
       ELSE cas
  ELSE IF IsJoos
  THEN JNext(pars.ca, pars.rs, pars.rb, In.idtm, cas, CO2In, PrevTemp)
  ELSE BNext(pars.ca, cas, CO2In, PrevTemp)

CO2Checks(c) ==
  IF In.concrun
  THEN <<Near("conc.CO2", At(In.conc["CO2"], Yr), RecConc("CO2", Yr), RT, AT)>>
  ELSE IF IsJoos THEN <<Near("carbon.CO2", c.x, RecConc("CO2", Yr), RT, AT)>>
  ELSE <<Near("carbon.CO2", c.atm, RecConc("CO2", Yr), RT, AT),
         <<"carbon.conserve", BConserves(cas, c, CO2In), "spec">>>>

NewProd == prod \o VConst(In.idtm, JProduction(pars.ca, RecConc("CO2", Yr), S("dT_glob")))

\* is the solution inside the interval (CO2 rises with emissions)
Solvable(d) ==
  JSolvable(pars.ca, pars.rs, pars.rb, In.idtm, cas, d, y,
            IF y = 0 THEN pars.ca.preindustrial_co2_conc ELSE RecConc("CO2", Yr - 1),
            RecConc("CO2", Yr), S("dT_glob"))

CarbonOutChecks(c, d, cm) ==
  LET Out(n) == Tab("carbon cycle", n)
      dT == S("dT_glob")
      co2 == RecConc("CO2", Yr)
      pre == IF IsJoos THEN pars.ca.preindustrial_co2_conc ELSE BPre
      frac == IF Obs.zerocum THEN F("NaN")
              ELSE ((co2 \ominus pre) \oslash cm) \otimes JPgC
      af == <<Near("carbonout.airborne", frac, Out("Airborne fraction CO2"), F("1e-8"), AT)>>
  IN IF ~IsJoos
     THEN <<Near("carbonout.npp", BNpp(pars.ca, co2, dT), Out("Net primary production"), RT, AT),
            Near("carbonout.ocean", BUptake(pars.ca, co2, dT), Out("Ocean carbon flux"), RT, AT)>>
          \o (IF In.concrun THEN <<>> ELSE af)
     ELSE <<Near("carbonout.npp", JNpp(pars.ca, dT), Out("Net Primary Production"), RT, AT),
            Near("carbonout.depth", JDepth(pars.ca, dT), Out("Mixed layer depth"), RT, AT),
            Near("carbonout.solubility", JSolubility(pars.ca, dT), Out("CO2 solubility"), RT, AT),
            Near("carbonout.ocean", JOceanFlux(c, In.idtm), Out("Ocean carbon flux"), F("1e-8"), F("1e-9")),
            Near("carbonout.land", IF In.concrun THEN JLandFluxOf(d, pars.rb, In.idtm) ELSE JLandFlux(c),
                 Out("Biosphere carbon flux"), F("1e-8"), F("1e-9"))>>
          \o af
          \o (IF ~In.concrun THEN <<>>
              ELSE <<<<"backcalc", FClose(c.x, co2, F("1.1e-7"), Zero) \/ ~Solvable(d),
                       "emissions " \o FStr(Out("Emissions")) \o " give " \o FStr(c.x)
                         \o " instead of " \o FStr(co2)>>>>)

Year ==
  /\ y >= 0 /\ y < In.n
  /\ LET full == In.mode = "ec" /\ O.dict
         thermal == In.mode = "rf" \/ O.dict
         r == IF thermal THEN Thermal ELSE None
         c == IF full THEN Carbon ELSE None
         d == IF full /\ BackCalc THEN NewProd ELSE prod
         cm == IF ~full THEN Zero
               ELSE cum \oplus (IF BackCalc THEN Tab("carbon cycle", "Emissions") ELSE CO2Emission(In, Yr))
         ch == (IF full THEN EmissionChecks \o ConcChecks \o ForcChecks \o CO2Checks(c) ELSE <<>>)
               \o TotalChecks \o SunVolcChecks
               \o (IF thermal THEN ThermalChecks(r) ELSE <<>>)
               \o (IF full /\ O.carbonout THEN CarbonOutChecks(c, d, cm) ELSE <<>>)
         bad == Fails(T.id, "op " \o ToString(k) \o " year " \o ToString(Yr), ch)
     IN /\ Cardinality(bad) <= Len(ch)
        \* after a deviation the run is followed no further, the history is
        /\ y' = IF bad = {} THEN y + 1 ELSE In.n
        /\ ths' = IF thermal THEN r.st ELSE None
        /\ cas' = c
        /\ prod' = d
        /\ cum' = cm
  /\ UNCHANGED <<t, k, cur, pars>>

End == y >= 0 /\ y = In.n /\ Idle(cur)
Done == y = -1 /\ k = Len(T.ops) + 1 /\ Emit(<<"DONE", T.id>>) /\ FALSE

Next == New \/ Begin \/ Year \/ End \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
