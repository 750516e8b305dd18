------------------------------ MODULE Reader ------------------------------
(***************************************************************************)
(* Named output variables: which quantity of the results a name stands     *)
(* for, in which unit, as a function of the results of a run.              *)
(*                                                                         *)
(* obs: results of the run (series: name -> values; tables: name -> years, *)
(* columns). units: per component <<emission unit, concentration unit>>    *)
(* as they stand in the gas table.                                         *)
(***************************************************************************)
EXTENDS Verdict, TLC, FiniteSets

ERF == "Effective Radiative Forcing|Anthropogenic|"
ATM == "Atmospheric Concentrations|"

\* <<component, name>>
FGases == <<
  <<"HFC125", "HFC|HFC125">>, <<"HFC134a", "HFC|HFC134a">>, <<"HFC143a", "HFC|HFC143a">>,
  <<"HFC152a", "HFC|HFC152a">>, <<"HFC227ea", "HFC|HFC227ea">>, <<"HFC236fa", "HFC|HFC236fa">>,
  <<"HFC23", "HFC|HFC23">>, <<"HFC245fa", "HFC|HFC245fa">>, <<"HFC32", "HFC|HFC32">>,
  <<"HFC365mfc", "HFC|HFC365mfc">>, <<"HFC4310mee", "HFC|HFC4310mee">>, <<"NF3", "NF3">>,
  <<"C2F6", "PFC|C2F6">>, <<"C3F8", "PFC|C3F8">>, <<"C4F10", "PFC|C4F10">>, <<"C5F12", "PFC|C5F12">>,
  <<"C6F14", "PFC|C6F14">>, <<"C7F16", "PFC|C7F16">>, <<"C8F18", "PFC|C8F18">>, <<"cC4F8", "PFC|cC4F8">>,
  <<"CF4", "PFC|CF4">>, <<"SF6", "SF6">>, <<"SO2F2", "SO2F2">>>>
Montreal == <<
  <<"CFC-11", "CFC|CFC11">>, <<"CFC-12", "CFC|CFC12">>, <<"CFC-113", "CFC|CFC113">>,
  <<"CFC-114", "CFC|CFC114">>, <<"CFC-115", "CFC|CFC115">>, <<"CH3Br", "CH3Br">>, <<"CCl4", "CCl4">>,
  <<"CH3CCl3", "CH3CCl3">>, <<"H-1202", "Halon1202">>, <<"H-1211", "Halon1211">>, <<"H-1301", "Halon1301">>,
  <<"H-2402", "Halon2402">>, <<"HCFC-123", "HCFC123">>, <<"HCFC-142b", "HCFC142b">>,
  <<"HCFC-141b", "HCFC141b">>, <<"HCFC-22", "HCFC22">>, <<"CHCl3", "CHCl3">>, <<"CH3Cl", "CH3Cl">>,
  <<"CH2Cl2", "CH2Cl2">>>>
Firsts(s) == {s[i][1] : i \in 1..Len(s)}

Aerosol == {"SO4_DIR", "SO4_IND", "BC", "OC"}
Direct == {"SO4_DIR", "BC", "OC"}
Greenhouse == Firsts(FGases) \cup Firsts(Montreal)
              \cup {"CO2", "CH4", "N2O", "TROP_O3", "STRAT_O3", "STRAT_H2O"}

\* name -> <<kind, what>>
Single(pre, kind, s) == [i \in 1..Len(s) |-> <<pre \o s[i][2], kind, s[i][1]>>]
Names ==
  <<<<"Surface Air Temperature Change", "K", "dT_glob_air">>,
    <<"Surface Air Ocean Blended Temperature Change", "K", "dT_glob">>,
    <<"Surface Air Ocean Temperature Change", "K", "dT_glob_sea">>,
    <<"Heat Uptake", "uptake", "RIB_glob">>,
    <<"Heat Content|Ocean", "heat", "OHCTOT">>,
    <<"Heat Content|Ocean|0-700m", "heat", "OHC700">>,
    <<"Effective Radiative Forcing", "erf", "">>,
    <<"Effective Radiative Forcing|Anthropogenic", "forc", "Total_forcing">>,
    <<"Effective Radiative Forcing|Greenhouse Gases", "sum", Greenhouse>>,
    <<"Effective Radiative Forcing|Aerosols|Direct Effect|SOx", "forc", "SO4_DIR">>,
    <<ERF \o "Aerosol", "sum", Aerosol>>,
    <<ERF \o "Aerosol|Aerosol-radiation Interactions", "sum", Direct>>,
    <<ERF \o "Aerosol|Aerosol-radiation Interactions|BC", "forc", "BC">>,
    <<ERF \o "Aerosol|Aerosol-radiation Interactions|OC", "forc", "OC">>,
    <<ERF \o "Aerosol|Aerosol-radiation Interactions|Sulfate", "forc", "SO4_DIR">>,
    <<ERF \o "Aerosol|Aerosol-cloud Interactions", "forc", "SO4_IND">>,
    <<ERF \o "F-Gases", "sum", Firsts(FGases)>>,
    <<ERF \o "CO2", "forc", "CO2">>, <<ERF \o "CH4", "forc", "CH4">>, <<ERF \o "N2O", "forc", "N2O">>,
    <<ERF \o "Other|Stratospheric H2O", "forc", "STRAT_H2O">>,
    <<ERF \o "Ozone|Stratospheric Contribution", "forc", "STRAT_O3">>,
    <<ERF \o "Ozone|Tropospheric Contribution", "forc", "TROP_O3">>,
    <<"Emissions|CO2", "em", "CO2">>, <<"Emissions|CH4", "em", "CH4">>, <<"Emissions|N2O", "em", "N2O">>,
    <<ATM \o "CO2", "conc", "CO2">>, <<ATM \o "CH4", "conc", "CH4">>, <<ATM \o "N2O", "conc", "N2O">>,
    <<"Carbon Flux|Land", "flux", "Biosphere carbon flux">>,
    <<"Carbon Flux|Ocean", "flux", "Ocean carbon flux">>,
    <<"Carbon Pool|Land", "pool", "Biosphere carbon flux">>,
    <<"Carbon Pool|Ocean", "pool", "Ocean carbon flux">>,
    <<"Net Flux to Atmosphere|CO2", "net", "">>,
    <<"Airborne fraction CO2", "fraction", "Airborne fraction CO2">>>>
  \o Single(ERF \o "F-Gases|", "forc", FGases) \o Single(ATM \o "F-Gases|", "conc", FGases)
  \o Single(ERF \o "Montreal Gases|", "forc", Montreal) \o Single(ATM \o "Montreal Gases|", "conc", Montreal)

\* names that stand for nothing
Unknown ==
  <<"Surface Temperature", "Heat Content", "Heat Content|Ocean|700-2000m", "Emissions", "Emissions|SF6", "Emissions|CO2|Other",
    "Atmospheric Concentrations", ATM \o "F-Gases|HFC|HFC999", ATM \o "HFC125", ATM \o "CFC-11",
    ERF \o "Aerosols", ERF \o "Foo", "Effective Radiative Forcing|Anthropogenic|", "Forcing", "Concentration",
    "Carbon Flux", "Carbon Pool|Atmosphere", "CO2", "dT_glob", "OHCTOT", "Total_forcing", "", "surface air temperature change">>

AllNames == {Names[i][1] : i \in 1..Len(Names)}
ASSUME Cardinality(AllNames) = Len(Names)
ASSUME AllNames \cap {Unknown[i] : i \in 1..Len(Unknown)} = {}
Entry(name) == CHOOSE e \in {Names[i] : i \in 1..Len(Names)} : e[1] = name

-----------------------------------------------------------------------------
HasT(obs, key) == key \in DOMAIN obs.tables
HasC(obs, key, c) == HasT(obs, key) /\ c \in DOMAIN obs.tables[key].cols
Col(obs, key, c) == obs.tables[key].cols[c]
N(obs) == Len(obs.series["dT_glob"])

\* what a run has: the variable is available
Available(obs, name) ==
  LET e == Entry(name)
      k == e[2]
  IN CASE k \in {"K", "uptake", "heat"} -> e[3] \in DOMAIN obs.series
       [] k \in {"erf", "sum"} -> HasT(obs, "forcing")
       [] k = "forc" -> HasC(obs, "forcing", e[3])
       [] k = "conc" -> HasC(obs, "concentrations", e[3])
       [] k = "em" -> HasC(obs, "emissions", e[3])
       [] k \in {"flux", "pool", "fraction"} -> HasC(obs, "carbon cycle", e[3])
       [] k = "net" -> HasC(obs, "carbon cycle", "Biosphere carbon flux") /\ HasC(obs, "carbon cycle", "Ocean carbon flux")

SumOf(obs, S) ==
  LET cs == SetToSeq(S \cap DOMAIN obs.tables["forcing"].cols)
      RECURSIVE Add(_)
      Add(i) == IF i = 0 THEN VConst(N(obs), Zero) ELSE VAdd(Add(i - 1), Col(obs, "forcing", cs[i]))
  IN Add(Len(cs))

\* joule in a year through the ocean surface, in ZJ
Uptake == (F("3.61e14") \otimes (F("86400") \otimes F("365"))) \oslash F("1e21")

Values(obs, name) ==
  LET e == Entry(name)
      k == e[2]
  IN CASE k = "K" -> obs.series[e[3]]
       [] k = "uptake" -> VScale(Uptake, obs.series[e[3]])
       [] k = "heat" -> VScale(F("10"), obs.series[e[3]])
       [] k = "erf" -> VAdd(Col(obs, "forcing", "Total_forcing"),
                            VAdd(obs.series["Solar_forcing"],
                                 VScale(Half, VAdd(obs.series["Volcanic_forcing_NH"], obs.series["Volcanic_forcing_SH"]))))
       [] k = "forc" -> Col(obs, "forcing", e[3])
       [] k = "sum" -> SumOf(obs, e[3])
       [] k = "conc" -> Col(obs, "concentrations", e[3])
       [] k = "em" -> IF e[3] = "CO2" /\ HasC(obs, "carbon cycle", "Emissions") THEN Col(obs, "carbon cycle", "Emissions")
                      ELSE Col(obs, "emissions", e[3])
       [] k = "flux" -> Col(obs, "carbon cycle", e[3])
       [] k = "fraction" -> Col(obs, "carbon cycle", e[3])
       [] k = "pool" -> VCumsum(Col(obs, "carbon cycle", e[3]))
       [] k = "net" -> VScale(F("-1"), VAdd(Col(obs, "carbon cycle", "Biosphere carbon flux"),
                                            Col(obs, "carbon cycle", "Ocean carbon flux")))

\* the emission units in use: mass with the species
EmUnit(c, u) ==
  CASE u = "Pg_C" -> "PgC / yr"
    [] c = "N2O" /\ u = "Tg_N" -> "TgN2ON / yr"
    [] OTHER -> u \o c \o " / yr"

Unit(units, name) ==
  LET e == Entry(name)
      k == e[2]
  IN CASE k = "K" -> "K"
       [] k = "uptake" -> "ZJ / yr"
       [] k = "heat" -> "ZJ"
       [] k \in {"erf", "forc", "sum"} -> "W/m^2"
       [] k = "conc" -> units[e[3]][2]
       [] k = "em" -> EmUnit(e[3], units[e[3]][1])
       [] k \in {"flux", "net"} -> "Pg C / yr"
       [] k = "pool" -> "Pg C"
       [] OTHER -> "Unitless"

Known(name) == name \in AllNames

\* got: [ok, years, values, unit] (ok FALSE: it was an error)
ReadChecks(obs, units, ny0, name, got) ==
  IF ~Known(name)
  THEN <<<<"unknown", got.ok /\ got.unit = "NoUnit" /\ Len(got.years) = 0 /\ Len(got.values) = 0,
           name \o " is no variable, but gave data or an error " \o got.unit>>>>
  ELSE IF ~Available(obs, name)
  THEN <<<<"missing", ~got.ok \/ (got.unit = "NoUnit" /\ Len(got.values) = 0), name \o " is not in the run, but has data">>>>
  ELSE IF ~got.ok THEN <<<<"error", FALSE, name \o ": " \o got.unit>>>>
  ELSE <<<<"unit", got.unit = Unit(units, name), name \o " in " \o got.unit>>,
         <<"years", got.years = [i \in 1..N(obs) |-> ny0 + i - 1], name \o " has other years">>,
         <<"values", VDiffer(Values(obs, name), got.values, F("1e-11"), F("1e-13")) = 0,
           name \o " differs from " \o Entry(name)[2] \o " at " \o ToString(VDiffer(Values(obs, name), got.values, F("1e-11"), F("1e-13")))>>>>
=============================================================================
