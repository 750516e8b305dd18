------------------------------- MODULE Gases -------------------------------
(***************************************************************************)
(* From emissions to concentrations for everything but CO2.                *)
(*                                                                         *)
(* A series is [y0 |-> first year, v |-> sequence of reals]. A gas is a    *)
(* record with its row of the gas table: beta (mass per concentration),    *)
(* alpha, tau1..tau3, nat (natural emissions), sarf, conc (TRUE iff it has *)
(* a concentration).                                                       *)
(***************************************************************************)
EXTENDS Fx, Integers, Sequences

At(s, yr) == s.v[yr - s.y0 + 1]
Covers(s, yr) == yr >= s.y0 /\ yr < s.y0 + Len(s.v)

MainThree == {"CO2", "CH4", "N2O"}

\* gases with a concentration that only depend on themselves
Simple(gases) == {g \in DOMAIN gases : gases[g].conc /\ g \notin MainThree}

-----------------------------------------------------------------------------
\* Emission perturbations: p is a sequence of [year, comp, val]; CO2 means
\* fossil CO2
PertTarget(comp) == IF comp = "CO2" THEN "CO2_FF" ELSE comp

RECURSIVE PertSum(_, _, _, _)
PertSum(p, name, yr, i) ==
  IF i > Len(p) THEN Zero
  ELSE (IF p[i].year = yr /\ PertTarget(p[i].comp) = name THEN p[i].val ELSE Zero)
          \oplus PertSum(p, name, yr, i + 1)

Emission(in, name, yr) ==
  IF Len(in.pem) = 0 THEN At(in.em[name], yr)
  ELSE At(in.em[name], yr) \oplus PertSum(in.pem, name, yr, 1)

CO2Emission(in, yr) == Emission(in, "CO2_FF", yr) \oplus Emission(in, "CO2_AFOLU", yr)

-----------------------------------------------------------------------------
\* Prescribed concentrations hold in concentration driven runs and before
\* emissions start
Prescribed(in, yr) == in.concrun \/ yr < in.emstart

\* the concentration a year starts from
Start(in, g, yr, prev) == IF yr = in.ny0 THEN At(in.conc[g], yr) ELSE prev

\* one year of dC/dt = e / beta - q C with constant e, starting from c
OneBox(e, beta, q, c) ==
  LET eq == (e \oslash beta) \oslash q
  IN eq \oplus ((c \ominus eq) \otimes FExp(FNeg(q)))

\* loss rate of methane (1/yr)
MethaneLoss(in, mode, c, yr) ==
  LET g == in.gases["CH4"]
      q0 == One \oslash g.tau1
      d(name) == Emission(in, name, yr) \ominus Emission(in, name, 2000)
      dlnoh == ((F("0.0042") \otimes d("NOx")) \ominus
                ((F("0.000105") \otimes d("CO")) \oplus (F("0.000315") \otimes d("NMVOC"))))
               \ominus (F("0.32") \otimes (FLog(c) \ominus FLog(F("1751"))))
      main == CASE mode = "TAR" -> q0 \otimes (One \oplus dlnoh)
                [] mode = "CONSTANT_12" -> One \oslash F("12")
                [] mode = "WIGLEY" -> q0 \otimes FPow(c \oslash F("1700"), F("-0.238"))
                [] OTHER -> q0
  IN main \oplus ((One \oslash g.tau2) \oplus (One \oslash g.tau3))

Natural(in, g, yr) ==
  CASE g = "CH4" -> At(in.natch4, yr)
    [] g = "N2O" -> At(in.natn2o, yr)
    [] OTHER -> in.gases[g].nat

\* concentration of gas g (not CO2) in year yr, prev: that of the year before
Conc(in, mode, g, yr, prev) ==
  IF Prescribed(in, yr) THEN At(in.conc[g], yr)
  ELSE LET c == Start(in, g, yr, prev)
           q == IF g = "CH4" THEN MethaneLoss(in, mode, c, yr)
                ELSE One \oslash in.gases[g].tau1
       IN OneBox(Emission(in, g, yr) \oplus Natural(in, g, yr), in.gases[g].beta, q, c)
=============================================================================
