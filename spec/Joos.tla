-------------------------------- MODULE Joos --------------------------------
(***************************************************************************)
(* The default carbon cycle: ocean mixed layer and land biosphere as pulse *)
(* responses, idtm steps a year (after Joos et al. 1996).                  *)
(***************************************************************************)
EXTENDS Fx, Integers, Sequences, TLC

JPgC == F("2.123")                  \* PgC per ppm
JOcean == F("3.62e14")
JGas == One \oslash (JOcean \otimes F("9.06"))     \* gas exchange, per m2 and year
JOG == JOcean \otimes JGas

\* Ocean mixed layer response at time t (years)
RsDefault(t) ==
  LET e(c, tau) == F(c) \otimes FExp(FNeg(t \oslash F(tau)))
  IN IF FLt(t, Two)
     THEN ((F("0.12935") \oplus e("0.21898", "0.034569")) \oplus e("0.17003", "0.26936"))
            \oplus (e("0.24071", "0.96083") \oplus e("0.24093", "4.9792"))
     ELSE (((F("0.022936") \oplus e("0.24278", "1.2679")) \oplus e("0.13963", "5.2528"))
            \oplus (e("0.089318", "18.601") \oplus e("0.03782", "68.736")))
            \oplus e("0.035549", "232.3")

\* Land decay response
RbDefault(t) ==
  ((F("0.70211") \otimes FExp(FNeg(F("0.35") \otimes t)))
     \oplus (F("13.4141e-3") \otimes FExp(FNeg(t \oslash F("20")))))
  \oplus
  ((F("2.9323e-3") \otimes FExp(FNeg(t \oslash F("100"))))
     \ominus (F("0.71846") \otimes FExp(FNeg((F("55") \otimes t) \oslash F("120")))))

\* Given as coefficients and timescales. Ocean: the first coefficient is a
\* constant term, normalised to 1 at time 0. Land: 0 at time 0, integral 1.
RsGiven(co, ti, t) ==
  LET s == VSum(co)
  IN VSum(V([i \in 1..Len(co) |->
        IF i = 1 THEN co[1] \oslash s
        ELSE (co[i] \oslash s) \otimes FExp(FNeg(t \oslash ti[i-1]))]))
RbGiven(co, ti, t) ==
  LET s == VSum(co)
  IN VSum(V([i \in 1..Len(co) |->
        (t \otimes ((co[i] \oslash s) \oslash (ti[i] \otimes ti[i]))) \otimes FExp(FNeg(t \oslash ti[i]))]))

JSeries(n, idtm, f(_)) == V([i \in 1..n |-> f(FI(i - 1) \oslash FI(idtm))])
JRs(r, n, idtm) ==
  IF r.k = "default" THEN JSeries(n, idtm, RsDefault)
  ELSE LET g(t) == RsGiven(r.co, r.ti, t) IN JSeries(n, idtm, g)
JRb(r, n, idtm) ==
  IF r.k = "default" THEN JSeries(n, idtm, RbDefault)
  ELSE LET g(t) == RbGiven(r.co, r.ti, t) IN JSeries(n, idtm, g)

\* Numbered single parameters: the list in the order of the numbers
RECURSIVE Numbered(_, _, _, _)
Numbered(p, pre, i, max) ==
  IF i > max THEN <<>>
  ELSE LET n == pre \o ToString(i)
       IN (IF n \in DOMAIN p THEN <<p[n].v>> ELSE <<>>) \o Numbered(p, pre, i + 1, max)

\* the response function in force after a run was given p (pre "rs" or "rb")
JGiven(cur, p, pre) ==
  LET co == Numbered(p, pre \o "_coef", 0, 40)
      ti == Numbered(p, pre \o "_tim", 0, 40)
      f == pre \o "_function"
  IN IF Len(co) > 0 THEN [k |-> "given", co |-> co, ti |-> ti]
     ELSE IF f \in DOMAIN p THEN [k |-> "given", co |-> p[f].co, ti |-> p[f].ti]
     ELSE cur

-----------------------------------------------------------------------------
\* Temperature feedbacks
Sigmoid(x, center, width) == One \oslash (One \oplus FExp(FNeg((x \ominus center) \oslash width)))
Damping(x, half, width) == One \ominus Sigmoid(x, half, width)

JNpp(p, t) ==
  LET s(x) == Sigmoid(x, p.t_half, p.w_sigmoid) \otimes Damping(x, p.t_threshold, p.w_threshold)
  IN (F("60") \oslash s(Zero)) \otimes s(t)

JDepth(p, t) ==
  LET m(x) == One \ominus (p.ml_fracmax \otimes Sigmoid(x, p.ml_t_half, p.ml_w_sigmoid))
  IN FMax((p.mixed_carbon \otimes m(t)) \oslash m(Zero), p.ml_depth_min)

JSolubility(p, t) ==
  FMin(FMax(FExp(FNeg(p.solubility_sens \otimes t)), Zero), One \oplus p.solubility_limit)

\* Partial pressure change in the mixed layer for a carbon content z
JZMax == F("293.5")
JPoly(z) ==
  z \otimes (F("1.3021") \oplus (z \otimes (F("3.7929e-3") \oplus (z \otimes (F("9.1193e-6") \oplus
    (z \otimes (F("1.488e-8") \oplus (z \otimes F("1.2425e-10")))))))))
JSlope(z) ==
  F("1.3021") \oplus (z \otimes (F("7.5858e-3") \oplus (z \otimes (F("27.3579e-6") \oplus
    (z \otimes (F("5.952e-8") \oplus (z \otimes F("6.2125e-10"))))))))
JPressure(z) ==
  IF FLe(z, JZMax) THEN JPoly(z)
  ELSE JPoly(JZMax) \oplus ((JSlope(JZMax) \otimes JZMax) \otimes FLog(z \oslash JZMax))

-----------------------------------------------------------------------------
\* State: s air-sea flux and d additional production of all steps so far,
\* f land uptake of the steps of the last year, y mixed layer pressure, x CO2
JInit(p) == [s |-> <<>>, d |-> <<>>, f |-> <<>>, y |-> Zero, x |-> p.preindustrial_co2_conc,
             e |-> Zero, ss1 |-> Zero, sums |-> Zero]

JStep(p, rs, rb, idtm, npp, depth, sol, em, st) ==
  LET it == Len(st.s)
      dt == One \oslash FI(idtm)
      cc == (dt \otimes JOG) \oslash (One \oplus ((dt \otimes JOG) \oslash Two))
      d == IF it = 0 THEN Zero
           ELSE (npp \otimes p.beta_f) \otimes FLog(st.x \oslash p.preindustrial_co2_conc)
      decay == IF it < 2 THEN Zero ELSE VConv(st.d, rb, 2, it, it + 1)
      land == d \ominus (dt \otimes decay)
      e == (em \ominus land) \oslash JPgC
      half == (Half \otimes e) \oslash JOG
      ss1 == IF it = 0 THEN half ELSE st.ss1
      ss2 == IF it = 0 THEN half ELSE half \ominus (st.y \oslash (dt \otimes JOG))
      sums == IF it = 0 THEN Zero ELSE (st.sums \oplus (st.e \oslash JOG)) \ominus st.s[it]
      s == cc \otimes ((sums \oplus ss1) \oplus ss2)
      sumz == IF it < 2 THEN Zero ELSE VConv(st.s, rs, 1, it - 1, it + 1)
      z == (((F("1.722e17") \otimes JGas) \otimes dt) \oslash depth)
             \otimes (sumz \oplus (Half \otimes s))
      y == sol \otimes JPressure(z)
  IN [s |-> Append(st.s, s), d |-> Append(st.d, d), f |-> Append(st.f, land), y |-> y,
      x |-> (s \oplus (Half \otimes (y \oplus st.y))) \oplus p.preindustrial_co2_conc,
      e |-> e, ss1 |-> ss1, sums |-> sums]

RECURSIVE JSteps(_, _, _, _, _, _, _, _, _, _)
JSteps(p, rs, rb, idtm, npp, depth, sol, em, st, i) ==
  IF i = 0 THEN st
  ELSE JSteps(p, rs, rb, idtm, npp, depth, sol, em,
              JStep(p, rs, rb, idtm, npp, depth, sol, em, st), i - 1)

\* one year with emissions em (PgC) and temperature change t
JNext(p, rs, rb, idtm, st, em, t) ==
  JSteps(p, rs, rb, idtm, JNpp(p, t), JDepth(p, t), JSolubility(p, t), em,
         [st EXCEPT !.f = <<>>], idtm)

JOceanFlux(st, idtm) ==
  LET n == Len(st.s)
  IN (VMean(SubSeq(st.s, n - idtm + 1, n)) \otimes JPgC) \otimes JOG
JLandFlux(st) == VMean(st.f)

\* Land flux for a prescribed CO2 path: d is the production of all steps
\* from the first to the year in question, idtm equal values a year
JLandFluxOf(d, rb, idtm) ==
  LET n == Len(d)
      dt == One \oslash FI(idtm)
  IN VMean(V([i \in 1..idtm |->
        LET it == n - idtm + i - 1
        IN d[it + 1] \ominus (dt \otimes (IF it < 2 THEN Zero ELSE VConv(d, rb, 2, it, it + 1)))]))
JProduction(p, c, t) ==
  (JNpp(p, t) \otimes p.beta_f) \otimes FLog(c \oslash p.preindustrial_co2_conc)

\* Back-calculation searches the year's emissions in an interval made from
\* the concentration change and the land flux: wide enough in all but
\* extreme cases. y: years before this one, d: production as above
JSearched(p, rb, idtm, d, y, prev, co2) ==
  LET it == y * idtm
      w == d[it + 1] \ominus ((One \oslash FI(idtm)) \otimes
             (IF it < 2 THEN Zero ELSE VConv(d, rb, 2, it, it + 1)))
      base == (co2 \ominus prev) \otimes JPgC
      a == base \oplus (F("8") \otimes w)
      b == base \ominus (F("4") \otimes w)
      lo == FMin(a, b)
      hi == FMax(a, b)
  IN IF FLt(hi \ominus lo, One) THEN <<lo \ominus One, hi \oplus One>> ELSE <<lo, hi>>

\* is the solution inside the interval (CO2 rises with emissions)
JSolvable(p, rs, rb, idtm, st, d, y, prev, co2, t) ==
  LET iv == JSearched(p, rb, idtm, d, y, prev, co2)
      x(e) == JNext(p, rs, rb, idtm, st, e, t).x
  IN FLe(x(iv[1]), co2) /\ FLe(co2, x(iv[2]))
=============================================================================
