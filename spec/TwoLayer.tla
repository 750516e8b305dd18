------------------------------ MODULE TwoLayer ------------------------------
(***************************************************************************)
(* The two-layer energy balance model, one explicit step per year.         *)
(* Heat capacities in W yr m-2 K-1, ocean heat content in 10^22 J.         *)
(***************************************************************************)
EXTENDS Fx

TLYear == F("86400") \otimes F("365")           \* seconds
TLOceanArea == F("3.61e14")
TLCap(depth) == ((depth \otimes F("1000")) \otimes F("4184")) \oslash TLYear

TLInit == [tf |-> Zero, ts |-> Zero]

TLForcing(fn, fs, vn, vs) ==
  ((fn \oplus fs) \oslash Two) \oplus ((VMean(vn) \oplus VMean(vs)) \oslash Two)

\* feedback parameter of the year (pattern effect): p.lambda + delta * w
TLFeedback(p, w) == p.lambda \oplus (w \otimes p.delta_lambda_aero)

TLNext(p, st, lam, f) ==
  LET ex == p.k \otimes (st.tf \ominus st.ts)    \* heat into the deep layer
  IN [tf |-> st.tf \oplus
             (((f \ominus (lam \otimes st.tf)) \ominus (p.ocean_efficacy \otimes ex))
                 \oslash TLCap(p.mixed)),
      ts |-> st.ts \oplus (ex \oslash TLCap(p.deep))]

TLHeat(depth, t) ==
  (((t \otimes TLCap(depth)) \otimes TLYear) \otimes TLOceanArea) \oslash F("1e22")

\* heat above 700 m: the part of each layer that lies above that depth
TLFrac(top, depth) ==
  FMax(Zero, FMin(One, (F("700") \ominus top) \oslash depth))

TLOut(p, st, lam, f) ==
  LET om == TLHeat(p.mixed, st.tf)
      od == TLHeat(p.deep, st.ts)
      focean == (p.foan \oplus p.foas) \oslash Two
  IN [dT_fast |-> st.tf, dT_slow |-> st.ts,
      dT_glob |-> ((f \oslash lam) \otimes (One \ominus focean))
                    \oplus (st.tf \otimes focean),
      RIB_glob |-> (f \ominus (lam \otimes st.tf)) \ominus
                    ((p.ocean_efficacy \ominus One) \otimes
                       (p.k \otimes (st.tf \ominus st.ts))),
      OHC_MIXED |-> om, OHC_DEEP |-> od, OHCTOT |-> om \oplus od,
      OHC700 |-> (om \otimes TLFrac(Zero, p.mixed))
                   \oplus (od \otimes TLFrac(p.mixed, p.deep))]

-----------------------------------------------------------------------------
\* Energy balance: over a year the heat gained by the two layers is what the
\* radiation balance at the start of the step lets in.
TLHeatGain(p, a, b) ==
  (TLCap(p.mixed) \otimes (b.tf \ominus a.tf)) \oplus
  (TLCap(p.deep) \otimes (b.ts \ominus a.ts))

TLUptake(p, a, lam, f) ==
  (f \ominus (lam \otimes a.tf)) \ominus
     (((p.ocean_efficacy \ominus One) \otimes p.k) \otimes (a.tf \ominus a.ts))

TLConserves(p, a, b, lam, f) ==
  FClose(TLHeatGain(p, a, b), TLUptake(p, a, lam, f), F("1e-9"), F("1e-9"))
=============================================================================
