-------------------------------- MODULE Udm --------------------------------
(***************************************************************************)
(* The upwelling-diffusion energy balance model: lm ocean layers in each   *)
(* of two hemispheres, ldtime implicit steps a year. Layer 1 is the mixed  *)
(* layer, all others are 100 m thick.                                      *)
(***************************************************************************)
EXTENDS Fx, Integers, Sequences

UYear == F("86400") \otimes F("365")
UC1 == (((F("1.03") \otimes F("0.955")) \otimes F("0.485")) \otimes F("100")) \otimes F("86400")

UInit(p) == [tn |-> VConst(FToInt(p.lm), Zero), ts |-> VConst(FToInt(p.lm), Zero),
             fn |-> Zero, fs |-> Zero]

UDz(p) == V([i \in 1..FToInt(p.lm) |-> IF i = 1 THEN p.mixed ELSE F("100")])
UDt(p) == (One \oslash p.ldtime) \otimes UYear

\* feedback parameter (W m-2 K-1) of the year
UFeedback(p, w) == (One \oslash p.lambda) \oplus (w \otimes p.delta_lambda_aero)

\* The implicit step of one hemisphere is a tridiagonal system that depends
\* on the upwelling w (m per step) as  (lo0 + w lo1, di0 + w di1, up0 + w up1).
\* gf: heat loss of the surface layer to the atmosphere, ef: efficacy of deep
\* ocean heat uptake (acts on what the mixed layer feels, not on the deep ocean)
UMatrix(lm, dz, rk, gf, ef) ==
  LET up0 == V([i \in 1..lm |->
                CASE i = 1 -> Zero
                  [] i = 2 -> FNeg(rk \oslash (dz[1] \otimes dz[2]))
                  [] OTHER -> FNeg(rk \oslash (dz[i-1] \otimes (dz[i-1] \oplus dz[i])))])
      up1 == V([i \in 1..lm |-> IF i <= 2 THEN Zero ELSE FNeg(One \oslash dz[i-1])])
      lo0 == V([i \in 1..lm |->
                CASE i = lm -> Zero
                  [] i = 1 -> FNeg(rk \oslash (dz[2] \otimes dz[2]))
                  [] OTHER -> FNeg(rk \oslash (dz[i+1] \otimes (dz[i] \oplus dz[i+1])))])
      lo1 == V([i \in 1..lm |-> IF i = 1 THEN One \oslash dz[2] ELSE Zero])
      di0 == V([i \in 1..lm |->
                CASE i = 1 -> (One \ominus (ef \otimes up0[2])) \oplus gf
                  [] i = lm -> One \ominus lo0[lm-1]
                  [] OTHER -> (One \ominus lo0[i-1]) \ominus up0[i+1]])
      di1 == V([i \in 1..lm |->
                CASE i = 1 -> FNeg(One \oslash dz[1])
                  [] i = lm -> One \oslash dz[lm]
                  [] OTHER -> FNeg(lo1[i-1] \oplus up1[i+1])])
  IN [lo0 |-> lo0, lo1 |-> lo1, di0 |-> di0, di1 |-> di1,
      up0 |-> [up0 EXCEPT ![2] = ef \otimes @], up1 |-> up1]

USolve(m, w, rhs) ==
  VTri(VAdd(m.lo0, VScale(w, m.lo1)), VAdd(m.di0, VScale(w, m.di1)),
       VAdd(m.up0, VScale(w, m.up1)), rhs)

\* Everything that is the same for all steps of a run with feedback rl
UConsts(p, rl) ==
  LET lm == FToInt(p.lm)
      dz == UDz(p)
      dt == UDt(p)
      blm == p.ebbeta \oslash p.rlamdo
      gamn == (p.foan \oplus (rl \oslash p.rlamdo)) \oplus blm
      gams == (p.foas \oplus (rl \oslash p.rlamdo)) \oplus blm
      den == (gams \otimes gamn) \ominus (blm \otimes blm)
      c1f == dt \oslash (UC1 \otimes p.mixed)
      rk == (Two \otimes (F("1e-4") \otimes p.akapa)) \otimes dt
      gfac(fro, gother) ==
         (p.rlamdo \otimes (One \ominus ((fro \otimes gother) \oslash den))) \otimes c1f
      exn == VDiv(VConst(lm, (p.beto \otimes dt) \oslash UC1), dz)
  IN [lm |-> lm, dz |-> dz, rl |-> rl,
      mn |-> UMatrix(lm, dz, rk, gfac(p.foan, gams), p.ocean_efficacy),
      ms |-> UMatrix(lm, dz, rk, gfac(p.foas, gamn), p.ocean_efficacy),
      \* exchange between the hemispheres, layer by layer
      exn |-> exn, exs |-> VScale(p.foan \oslash p.foas, exn),
      \* surface layer: through the atmosphere from the other hemisphere,
      \* own forcing, forcing of the other hemisphere
      xn |-> ((p.foas \otimes p.ebbeta) \oslash den) \otimes c1f,
      xs |-> ((p.foan \otimes p.ebbeta) \oslash den) \otimes c1f,
      qn |-> (gams \oslash den) \otimes c1f,
      qs |-> (gamn \oslash den) \otimes c1f,
      qx |-> (blm \oslash den) \otimes c1f,
      fnx |-> (rl \oplus (p.foan \otimes p.rlamdo)) \oplus p.ebbeta,
      fsx |-> (rl \oplus (p.foas \otimes p.rlamdo)) \oplus p.ebbeta]

\* upwelling (m) in a step, weakened by the warming t of the surface layer
UUpwell(p, t) ==
  LET w0 == (p.W \oslash UYear) \otimes UDt(p)
  IN IF FEq(p.threstemp, Zero) THEN w0
     ELSE w0 \otimes (One \ominus ((F("0.3") \otimes t) \oslash p.threstemp))

\* Right hand side: exchange with the other hemisphere in all layers, polar
\* sinking from the surface to the bottom layer, forcing at the surface
URhs(p, c, w, own, other, ex, x, q, qown, qother) ==
  LET base == VAdd(own, VMul(ex, VSub(other, own)))
      sink == p.cpi \otimes w
      top == ((x \otimes other[1]) \oplus ((q \otimes qown) \oplus (c.qx \otimes qother)))
               \ominus ((sink \oslash c.dz[1]) \otimes own[1])
  IN [base EXCEPT ![1] = @ \oplus top,
                  ![c.lm] = @ \oplus ((sink \oslash c.dz[c.lm]) \otimes own[1])]

\* Step m of the year (1..ldtime)
UStep(p, c, st, acc, m, fn, fs, vn, vs) ==
  LET x == FI(m) \oslash p.ldtime
      qn == ((x \otimes fn) \oplus ((One \ominus x) \otimes st.fn)) \oplus vn[((m - 1) % Len(vn)) + 1]
      qs == ((x \otimes fs) \oplus ((One \ominus x) \otimes st.fs)) \oplus vs[((m - 1) % Len(vn)) + 1]
      \* the first step of each year has the unweakened upwelling
      wn == UUpwell(p, IF m = 1 THEN Zero ELSE st.tn[1])
      ws == UUpwell(p, IF m = 1 THEN Zero ELSE st.ts[1])
      tn == USolve(c.mn, wn, URhs(p, c, wn, st.tn, st.ts, c.exn, c.xn, c.qn, qn, qs))
      ts == USolve(c.ms, ws, URhs(p, c, ws, st.ts, st.tn, c.exs, c.xs, c.qs, qs, qn))
      hn == qn \oplus ((p.foan \otimes p.rlamdo) \otimes tn[1])
      hs == qs \oplus ((p.foas \otimes p.rlamdo) \otimes ts[1])
      bb == p.ebbeta \otimes p.ebbeta
      an == (hn \oplus ((p.ebbeta \otimes hs) \oslash c.fsx)) \oslash (c.fnx \ominus (bb \oslash c.fsx))
      as == (hs \oplus ((p.ebbeta \otimes hn) \oslash c.fnx)) \oslash (c.fsx \ominus (bb \oslash c.fnx))
  IN [st |-> [st EXCEPT !.tn = tn, !.ts = ts],
      acc |-> [n |-> acc.n \oplus ((p.foan \otimes tn[1]) \oplus ((One \ominus p.foan) \otimes an)),
               s |-> acc.s \oplus ((p.foas \otimes ts[1]) \oplus ((One \ominus p.foas) \otimes as)),
               na |-> acc.na \oplus an, sa |-> acc.sa \oplus as,
               no |-> acc.no \oplus tn[1], so |-> acc.so \oplus ts[1]]]

RECURSIVE USteps(_, _, _, _, _, _, _, _, _)
USteps(p, c, cur, m, fn, fs, vn, vs, n) ==
  IF m > n THEN cur
  ELSE USteps(p, c, UStep(p, c, cur.st, cur.acc, m, fn, fs, vn, vs), m + 1, fn, fs, vn, vs, n)

\* heat content (10^22 J) of each layer
UHeat(p, dz, tn, ts) ==
  VScale((F("1030") \otimes F("3.997e-19")) \otimes F("2.55e14"),
         VMul(dz, VAdd(VScale(p.foan, tn), VScale(p.foas, ts))))

UTop(dz, i) == IF i = 1 THEN Zero ELSE dz[1] \oplus (F("100") \otimes FI(i - 2))
\* share of layer i that lies above 700 m
UShare(dz, i) ==
  FMax(Zero, FMin(One, (F("700") \ominus UTop(dz, i)) \oslash dz[i]))

\* One year: forcing moves linearly from last year's value to this year's
UNext(p, c, st, fn, fs, vn, vs) ==
  LET rl == c.rl
      zero == [n |-> Zero, s |-> Zero, na |-> Zero, sa |-> Zero, no |-> Zero, so |-> Zero]
      r == USteps(p, c, [st |-> st, acc |-> zero], 1, fn, fs, vn, vs, FToInt(p.ldtime))
      av(x) == x \oslash p.ldtime
      tn == r.st.tn
      ts == r.st.ts
      heat == UHeat(p, c.dz, tn, ts)
      dprof == VMul(c.dz, VAdd(VScale(p.foan, VSub(tn, st.tn)), VScale(p.foas, VSub(ts, st.ts))))
      deep == VSum(Tail(dprof))
      anom == (p.ocean_efficacy \ominus One) \otimes
                (((F("4184") \otimes F("1000")) \otimes deep) \oslash UYear)
      ribn == ((fn \oplus VMean(vn)) \ominus (rl \otimes av(r.acc.n))) \ominus anom
      ribs == ((fs \oplus VMean(vs)) \ominus (rl \otimes av(r.acc.s))) \ominus anom
      glob(a, b) == (a \oplus b) \oslash Two
  IN [st |-> [r.st EXCEPT !.fn = fn, !.fs = fs],
      out |-> [dT_glob |-> glob(av(r.acc.n), av(r.acc.s)),
               dT_NH |-> av(r.acc.n), dT_SH |-> av(r.acc.s),
               dT_glob_air |-> glob(av(r.acc.na), av(r.acc.sa)),
               dT_NH_air |-> av(r.acc.na), dT_SH_air |-> av(r.acc.sa),
               dT_glob_sea |-> glob(av(r.acc.no), av(r.acc.so)),
               dT_NH_sea |-> av(r.acc.no), dT_SHsea |-> av(r.acc.so),
               RIB_N |-> ribn, RIB_S |-> ribs, RIB_glob |-> glob(ribn, ribs),
               OHCTOT |-> VSum(heat),
               OHC700 |-> VSum(V([i \in 1..c.lm |-> heat[i] \otimes UShare(c.dz, i)]))]]
=============================================================================
