-------------------------------- MODULE Box --------------------------------
(***************************************************************************)
(* The box carbon cycle: five pools (PgC, the atmosphere in ppm), one step *)
(* a year.                                                                 *)
(***************************************************************************)
EXTENDS Fx

BPgC == F("2.123")
BPre == F("278")

BInit == [atm |-> BPre, veg |-> F("600"), soil |-> F("3000"),
          mixed |-> Zero, deep |-> Zero]

BNpp(p, co2, t) ==
  FMax(Zero, (F("60") \oplus (p.beta_f \otimes FLog(co2 \oslash BPre)))
               \ominus (p.land_temp_sensitivity \otimes t))
BUptake(p, co2, t) ==
  (p.ocean_solubility_base \otimes (One \oplus (p.ocean_solubility_temp_coeff \otimes t)))
    \otimes (co2 \ominus BPre)

BNext(p, st, em, t) ==
  LET npp == BNpp(p, st.atm, t)
      litter == st.veg \otimes p.vegetation_to_soil_fraction
      resp == st.soil \otimes p.soil_respiration_rate
      up == BUptake(p, st.atm, t)
      down == (st.mixed \ominus st.deep) \otimes p.ocean_exchange_rate
  IN [atm |-> st.atm \oplus ((((em \ominus up) \oplus resp) \ominus npp) \oslash BPgC),
      veg |-> st.veg \oplus (npp \ominus litter),
      soil |-> st.soil \oplus (litter \ominus resp),
      mixed |-> st.mixed \oplus (up \ominus down),
      deep |-> st.deep \oplus down]

-----------------------------------------------------------------------------
BTotal(st) ==
  ((st.atm \otimes BPgC) \oplus (st.veg \oplus st.soil)) \oplus (st.mixed \oplus st.deep)
\* up to rounding, which goes with the size of the pools
BSize(st) ==
  ((FAbs(st.atm) \otimes BPgC) \oplus (FAbs(st.veg) \oplus FAbs(st.soil)))
    \oplus (FAbs(st.mixed) \oplus FAbs(st.deep))
BConserves(a, b, em) ==
  \/ ~FFinite(BSize(b))
  \/ FClose(BTotal(b) \ominus BTotal(a), em, F("1e-12"),
            F("1e-12") \otimes (BSize(a) \oplus BSize(b)))
=============================================================================
