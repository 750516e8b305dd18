------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Which value a parameter has in a run.                                   *)
(*                                                                         *)
(* What a user supplies is a record from names to                          *)
(*     [k |-> "num", v |-> real]   or   [k |-> "other"]  (text, lists ...) *)
(* A parameter set belongs to a component with a fixed table of defaults.  *)
(***************************************************************************)
EXTENDS Fx, Sequences, Integers

Supplied(p, n) == n \in DOMAIN p /\ p[n].k = "num"

\* missing or non-numeric: the default; names the component does not know
\* have no effect at all
Resolve(defaults, p) ==
  [n \in DOMAIN defaults |-> IF Supplied(p, n) THEN p[n].v ELSE defaults[n]]

\* carbon cycle parameters keep the value of an earlier run of the instance
\* until a run gives them a new one
Persist(current, p) ==
  [n \in DOMAIN current |-> IF Supplied(p, n) THEN p[n].v ELSE current[n]]

UdmDefaults ==
  [rlamdo |-> F("15.0"), akapa |-> F("0.66"), cpi |-> F("0.21"),
   W |-> F("2.2"), beto |-> F("6.9"), threstemp |-> F("7.0"),
   lambda |-> F("0.61"), mixed |-> F("107.0"), foan |-> F("0.61"),
   foas |-> F("0.81"), ebbeta |-> F("0.0"), lm |-> F("40"),
   ldtime |-> F("12"), ocean_efficacy |-> F("1.0"),
   delta_lambda_aero |-> F("0.0")]

TwoLayerDefaults ==
  [lambda |-> F("3.74") \oslash F("3"), mixed |-> F("50"), deep |-> F("1200"),
   k |-> F("0.5"), ocean_efficacy |-> F("1"), foan |-> F("0.61"),
   foas |-> F("0.81"), delta_lambda_aero |-> F("0.0")]

EmiconcDefaults ==
  [qbmb |-> F("0.0"), qo3 |-> F("0.5"), qdirso2 |-> F("-0.00308"),
   qindso2 |-> FNeg(F("0.97")) \oslash F("57.052577209999995"),
   qbc |-> F("0.0279"), qoc |-> F("-0.00433"), qh2o_ch4 |-> F("0.091915"),
   ref_yr |-> F("2010"), qnmvoc |-> F("0.0"), qnh3 |-> F("0.0"),
   qnox |-> F("0.0")]

\* preindustrial_co2_conc is the prescribed CO2 concentration of the first
\* year unless it is given
JoosDefaults(co2first) ==
  [beta_f |-> F("0.287"), mixed_carbon |-> F("75.0"),
   ml_w_sigmoid |-> F("3.0"), ml_fracmax |-> F("0.5"),
   ml_t_half |-> F("0.5"), t_half |-> F("0.5"), w_sigmoid |-> F("7"),
   t_threshold |-> F("4"), w_threshold |-> F("7"),
   solubility_sens |-> F("0.02"), solubility_limit |-> F("0.5"),
   ml_depth_min |-> F("10.0"), preindustrial_co2_conc |-> co2first]

BoxDefaults ==
  [beta_f |-> F("0.287"), land_temp_sensitivity |-> F("0.1"),
   soil_respiration_rate |-> F("0.02"), ocean_mixed_layer_depth |-> F("25.0"),
   ocean_exchange_rate |-> F("0.01"), vegetation_to_soil_fraction |-> F("0.1"),
   ocean_solubility_base |-> F("0.02"),
   ocean_solubility_temp_coeff |-> F("-0.01")]

ThermalDefaults(model) == IF model = "twolayer" THEN TwoLayerDefaults ELSE UdmDefaults

-----------------------------------------------------------------------------
\* Carbon decay functions: given as coefficient and timescale lists, or as
\* numbered single parameters (rs_coef0, rs_coef1, ..., rs_tim0, ...), which
\* mean the same lists, in the order of their numbers.
=============================================================================
