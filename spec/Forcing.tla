------------------------------ MODULE Forcing ------------------------------
(***************************************************************************)
(* From concentrations and emissions to forcing (W m-2).                   *)
(***************************************************************************)
EXTENDS Gases

\* Overlap formulas (Etminan et al. 2016); c*, n*, m*: CO2, N2O, CH4, the
\* ones ending in 0 of the first year of the run
Mid(a, b) == Half \otimes (a \oplus b)

RfCO2(c, c0, n, n0) ==
  (((F("-2.4e-7") \otimes ((c \ominus c0) \otimes (c \ominus c0)))
     \oplus (F("7.2e-4") \otimes FAbs(c \ominus c0)))
     \oplus ((F("-2.1e-4") \otimes Mid(n, n0)) \oplus F("5.36")))
  \otimes FLog(c \oslash c0)

RfN2O(c, c0, n, n0, m, m0) ==
  (((F("-8.0e-6") \otimes Mid(c, c0)) \oplus (F("4.2e-6") \otimes Mid(n, n0)))
     \oplus ((F("-4.9e-6") \otimes Mid(m, m0)) \oplus F("0.117")))
  \otimes (FSqrt(n) \ominus FSqrt(n0))

RfCH4(n, n0, m, m0) ==
  ((F("-1.3e-6") \otimes Mid(m, m0)) \oplus ((F("-8.2e-6") \otimes Mid(n, n0)) \oplus F("0.043")))
  \otimes (FSqrt(m) \ominus FSqrt(m0))

-----------------------------------------------------------------------------
\* Aerosols and precursors: [emissions they follow, parameter]
AerosolRef ==
  [SO2 |-> <<"SO2", "qdirso2">>, SO4_IND |-> <<"SO2", "qindso2">>,
   OC |-> <<"OC", "qoc">>, BC |-> <<"BC", "qbc">>,
   BMB_AEROS |-> <<"BMB_AEROS_OC", "qbmb">>, NMVOC |-> <<"NMVOC", "qnmvoc">>,
   NH3 |-> <<"NH3", "qnh3">>, NOx |-> <<"NOx", "qnox">>]

Prefix(s, n) == IF Len(s) < n THEN s ELSE SubSeq(s, 1, n)

IsAerosol(gases, g) ==
  /\ ~gases[g].conc
  /\ g \in {"NMVOC", "NH3", "NOx"} \/ Prefix(g, 2) \in {"BC", "OC", "SO", "BM"}

\* an aerosol that is given by region has no forcing from its global total
HasRegions(gases, a) ==
  \E g \in DOMAIN gases : Len(g) > Len(a) /\ Prefix(g, Len(a) + 1) = a \o "_"

AerosolFactor(in, ep, g) ==
  IF g \in {"SO2", "BC", "OC"} /\ HasRegions(in.gases, g) THEN Zero
  ELSE ep[AerosolRef[g][2]]

RfAerosol(in, ep, g, yr) ==
  LET d(name) == Emission(in, name, yr) \ominus Emission(in, name, in.ny0)
  IN IF ~FEq(in.gases[g].alpha, Zero) THEN d(g) \otimes in.gases[g].alpha
     ELSE IF g \in DOMAIN AerosolRef
     THEN AerosolFactor(in, ep, g) \otimes d(AerosolRef[g][1])
     ELSE Zero

-----------------------------------------------------------------------------
\* Halogen atoms in a molecule
Atoms(by) == [n \in UNION {by[i] : i \in DOMAIN by} |-> CHOOSE i \in DOMAIN by : n \in by[i]]
Chlorine == Atoms(
  <<{"CFC-13", "CFC-115", "HCFC-22", "HCFC-124", "HCFC-142b", "HCFC-1233zd", "CH3Cl", "CH2BrCl",
     "CHBr2Cl", "H-1211", "H-2311"},
    {"CFC-12", "CFC-114", "HCFC-123", "HCFC-141b", "HCFC-225ca", "HCFC-225cb", "CH2Cl2", "CHBrCl2",
     "H-1121"},
    {"CFC-11", "CFC-113", "CH3CCl3", "CHCl3"},
    {"CFC-112a", "CCl4", "C2Cl4"}>>)
Bromine == Atoms(
  <<{"CH3Br", "CH2BrCl", "CHBrCl2", "H-1201", "H-1211", "H-1301", "H-2311", "H-1121"},
    {"CH2Br2", "CHBr2Cl", "H-1202", "H-2402"},
    {"CHBr3"}>>)

\* d: concentration change since the first year
ClTerm(n, d) ==
  LET x == FPow(FI(n) \otimes FAbs(d), F("1.7"))
  IN IF FLt(d, Zero) THEN FNeg(x) ELSE x
BrTerm(n, d) == FI(n) \otimes d

\* conc: function from gas name to its change up to three years ago
RfStratO3(in, change) ==
  LET G == Simple(in.gases)
      cl == FSum([g \in G \cap DOMAIN Chlorine |-> ClTerm(Chlorine[g], change[g])])
      br == FSum([g \in G \cap DOMAIN Bromine |-> BrTerm(Bromine[g], change[g])])
  IN FNeg(((F("0.05") \oslash F("0.17377")) \otimes
            ((F("0.000552") \otimes cl) \oplus (F("3.048") \otimes br))) \oslash F("1000"))
     \otimes in.gases["STRAT_O3"].sarf

-----------------------------------------------------------------------------
\* Tropospheric ozone (a concentration, then a forcing); refyr: reference year
ConcTropO3(in, refyr, ch4, yr) ==
  LET d(name) == Emission(in, name, yr) \ominus Emission(in, name, refyr)
  IN ((F("30") \oplus (F("6.7") \otimes (FLog(ch4) \ominus FLog(At(in.conc["CH4"], refyr)))))
       \oplus (F("0.17") \otimes d("NOx")))
     \oplus ((F("0.0014") \otimes d("CO")) \oplus (F("0.0042") \otimes d("NMVOC")))

RfTropO3(in, ep, o3, o30) ==
  IF FEq(o30, F("30")) THEN Zero
  ELSE (((o3 \ominus o30) \oslash (F("30") \ominus o30)) \otimes ep.qo3)
         \otimes in.gases["TROP_O3"].sarf

-----------------------------------------------------------------------------
\* Forcing perturbations of a component in a year
RECURSIVE ForcPert(_, _, _, _)
ForcPert(p, g, yr, i) ==
  IF i > Len(p) THEN Zero
  ELSE (IF p[i].year = yr /\ p[i].comp = g THEN p[i].val ELSE Zero)
          \oplus ForcPert(p, g, yr, i + 1)

\* Forcing of component g in year yr before perturbations.
\* c(name, year): concentrations; fch4: forcing of CH4 before perturbations
BaseForcing(in, ep, g, yr, c(_, _)) ==
  LET y0 == in.ny0
      sarf == in.gases[g].sarf
      ch4 == RfCH4(c("N2O", yr), c("N2O", y0), c("CH4", yr), c("CH4", y0))
               \otimes in.gases["CH4"].sarf
  IN CASE g = "CO2" -> RfCO2(c("CO2", yr), c("CO2", y0), c("N2O", yr), c("N2O", y0)) \otimes sarf
       [] g = "N2O" -> RfN2O(c("CO2", yr), c("CO2", y0), c("N2O", yr), c("N2O", y0),
                             c("CH4", yr), c("CH4", y0)) \otimes sarf
       [] g = "CH4" -> ch4
       [] g \in Simple(in.gases) ->
            ((c(g, yr) \ominus c(g, y0)) \otimes in.gases[g].alpha) \otimes sarf
       [] g = "LANDUSE" -> At(in.luc, yr)
       [] IsAerosol(in.gases, g) -> RfAerosol(in, ep, g, yr)
       [] g = "TROP_O3" -> RfTropO3(in, ep, c("TROP_O3", yr), c("TROP_O3", y0))
       [] g = "STRAT_H2O" -> (ep.qh2o_ch4 \otimes ch4) \otimes sarf
       [] g = "STRAT_O3" ->
            IF yr < y0 + 3 THEN Zero
            ELSE RfStratO3(in, [h \in Simple(in.gases) |-> c(h, yr - 3) \ominus c(h, y0)])
       [] OTHER -> Zero

ComponentForcing(in, ep, g, yr, c(_, _)) ==
  LET f == BaseForcing(in, ep, g, yr, c)
  IN IF Len(in.pforc) = 0 THEN f ELSE f \oplus ForcPert(in.pforc, g, yr, 1)

-----------------------------------------------------------------------------
\* Share of a component's forcing on the northern hemisphere; the southern
\* one gets 2 - share
NorthShare(g) ==
  CASE g \in {"SO2", "SO4_IND", "BC", "OC", "BMB_AEROS", "BMB_AEROS_OC", "BMB_AEROS_BC"} -> F("1.47")
    [] g = "TROP_O3" -> F("1.45")
    [] g = "LANDUSE" -> F("1.42")
    [] OTHER -> One

\* f: function from components to this year's forcing
TotalForcing(f) == FSum(f)
NorthForcing(f) == FSum([g \in DOMAIN f |-> f[g] \otimes NorthShare(g)])
SouthForcing(f) ==
  FSum([g \in DOMAIN f |-> f[g] \otimes (Two \ominus NorthShare(g))])

\* Aerosol share: magnitudes of aerosols over those of all components that
\* are followed one by one (not the simple gases, not stratospheric ozone)
AerosolShare(gases, f) ==
  LET T == {g \in DOMAIN f : g \notin Simple(gases) /\ g # "STRAT_O3"}
      A == {g \in T : IsAerosol(gases, g)}
      tot == FSum([g \in T |-> FAbs(f[g])])
  IN IF FEq(tot, Zero) THEN Zero
     ELSE FSum([g \in A |-> FAbs(f[g])]) \oslash tot

-----------------------------------------------------------------------------
\* Forcing driven runs. in.forc is [kind, ...]:
\*   "array": series total;  "table": columns, a function from names to series
FxCol(in, n, yr) == At(in.forc.cols[n], yr)
FxCols(in) == DOMAIN in.forc.cols
Given(in) == {n \in FxCols(in) : n \notin {"total", "FORC_NH", "FORC_SH", "w_aero"}}

FxTotal(in, yr) ==
  IF in.forc.kind = "array" THEN At(in.forc.total, yr)
  ELSE IF "total" \in FxCols(in) THEN FxCol(in, "total", yr)
  ELSE IF {"FORC_NH", "FORC_SH"} \subseteq FxCols(in)
  THEN (FxCol(in, "FORC_NH", yr) \oplus FxCol(in, "FORC_SH", yr)) \oslash Two
  ELSE FSum([n \in Given(in) |-> FxCol(in, n, yr)])

FxNorth(in, yr) == IF in.forc.kind = "table" /\ "FORC_NH" \in FxCols(in)
                   THEN FxCol(in, "FORC_NH", yr) ELSE FxTotal(in, yr)
FxSouth(in, yr) == IF in.forc.kind = "table" /\ "FORC_SH" \in FxCols(in)
                   THEN FxCol(in, "FORC_SH", yr) ELSE FxTotal(in, yr)

FxAerosols(in) == {n \in Given(in) :
   n \in {"NMVOC", "NH3", "NOx"} \/ Prefix(n, 2) \in {"BC", "OC", "SO", "BM"}}

FxShare(in, yr) ==
  IF in.forc.kind = "array" THEN Zero
  ELSE IF "w_aero" \in FxCols(in) THEN FxCol(in, "w_aero", yr)
  ELSE LET mag(S) == FSum([n \in S |-> FAbs(FxCol(in, n, yr))])
           tot == mag(Given(in))
       IN IF FxAerosols(in) = {} \/ FEq(tot, Zero) THEN Zero
          ELSE mag(FxAerosols(in)) \oslash tot
=============================================================================
