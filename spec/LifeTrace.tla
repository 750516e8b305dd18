----------------------------- MODULE LifeTrace -----------------------------
(***************************************************************************)
(* What a run's results depend on.                                         *)
(*                                                                         *)
(* In a history of operations on any number of instances the results of a  *)
(* run up to a year are a function of                                      *)
(*   - the instance's inputs up to that year, as the quantities they mean  *)
(*     (not their form: file or data, longer or shorter, perturbations     *)
(*     apart or added in),                                                 *)
(*   - the parameters in force: those given to the run, defaults for those *)
(*     left out, and for the carbon cycle what was last set on the         *)
(*     instance,                                                           *)
(* and of nothing else: not of earlier runs, other instances, the way the  *)
(* results are delivered, or later years. The function itself is left      *)
(* open: any two runs in the history for which the above agree up to some  *)
(* year must have the same results up to that year.                        *)
(***************************************************************************)
EXTENDS SystemTrace

VARIABLES
  canon,    \* the inputs of the instances there are, as the quantities they mean
  log,      \* per operation: None, or what determines the results of the run
  pairs     \* number of pairs of runs compared
lvars == <<t, k, y, cur, pars, ths, cas, prod, cum, canon, log, pairs>>

-----------------------------------------------------------------------------
\* Inputs as the quantities they mean

Years(in, f(_)) == V([i \in 1..in.n |-> f(in.ny0 + i - 1)])

CanonEC(in) ==
  [fixed |-> <<"ec", in.ny0, IF in.carbon = "box" THEN 0 ELSE in.idtm, in.concrun, in.thermal, in.carbon, in.gases>>,
   em |-> [g \in DOMAIN in.em |-> LET f(yr) == Emission(in, g, yr) IN Years(in, f)],
   conc |-> [g \in DOMAIN in.conc |-> LET f(yr) == At(in.conc[g], yr) IN Years(in, f)],
   pf |-> [g \in DOMAIN in.gases |->
             IF Len(in.pforc) = 0 THEN VConst(in.n, Zero)
             ELSE LET f(yr) == ForcPert(in.pforc, g, yr, 1) IN Years(in, f)],
   misc |-> [natch4 |-> LET f(yr) == At(in.natch4, yr) IN Years(in, f),
             natn2o |-> LET f(yr) == At(in.natn2o, yr) IN Years(in, f),
             luc |-> LET f(yr) == At(in.luc, yr) IN Years(in, f),
             sun |-> LET f(yr) == At(in.sun, yr) IN Years(in, f),
             vn |-> in.vn, vs |-> in.vs],
   share |-> <<>>]

CanonRF(in) ==
  [fixed |-> <<"rf", in.ny0, in.thermal>>,
   em |-> <<>>, conc |-> <<>>, pf |-> <<>>,
   misc |-> [n |-> LET f(yr) == FxNorth(in, yr) IN Years(in, f),
             s |-> LET f(yr) == FxSouth(in, yr) IN Years(in, f),
             tot |-> LET f(yr) == FxTotal(in, yr) IN Years(in, f),
             sun |-> LET f(yr) == At(in.sun, yr) IN Years(in, f),
             vn |-> in.vn, vs |-> in.vs],
   share |-> LET f(yr) == FxShare(in, yr) IN Years(in, f)]

CanonOf(in) == IF in.mode = "ec" THEN CanonEC(in) ELSE CanonRF(in)

Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE MinOver(_, _, _, _)
MinOver(f, g, D, m) ==
  IF D = {} \/ m = 0 THEN m
  ELSE LET x == CHOOSE z \in D : TRUE
       IN MinOver(f, g, D \ {x}, Min2(m, VCommon(f[x], g[x])))
CommonOf(f, g, m) == IF DOMAIN f = DOMAIN g THEN MinOver(f, g, DOMAIN f, m) ELSE 0

\* years the chemistry refers to, wherever they lie
Anchors(in, p) ==
  IF in.mode = "rf" THEN {}
  ELSE {FToInt(p.em.ref_yr)} \cup (IF ~in.concrun /\ p.life = "TAR" THEN {2000} ELSE {})

AnchorsAgree(i, j, p, m) ==
  \A yr \in Anchors(Inputs[i], p) :
    LET x == yr - Inputs[i].ny0 + 1
    IN \/ x <= m
       \/ /\ x <= Inputs[i].n /\ x <= Inputs[j].n
          /\ \A g \in DOMAIN canon[i].em : canon[i].em[g][x] = canon[j].em[g][x]
          /\ \A g \in DOMAIN canon[i].conc : canon[i].conc[g][x] = canon[j].conc[g][x]

\* number of years for which the inputs i and j agree, under parameters p
Agree(i, j, p) ==
  LET a == canon[i]
      b == canon[j]
      all == Min2(Inputs[i].n, Inputs[j].n)
      e1 == Inputs[i].emstart
      e2 == Inputs[j].emstart
      m0 == IF Inputs[i].mode = "rf" \/ e1 = e2 \/ Inputs[i].concrun THEN all
            ELSE LET x == Min2(e1, e2) - Inputs[i].ny0
                 IN IF x < 0 THEN 0 ELSE Min2(all, x)
      m1 == CommonOf(a.em, b.em, m0)
      m2 == CommonOf(a.conc, b.conc, m1)
      m3 == CommonOf(a.pf, b.pf, m2)
      m4 == CommonOf(a.misc, b.misc, m3)
      m == IF m4 > 0 /\ Inputs[i].mode = "rf" /\ ~FEq(p.th.delta_lambda_aero, Zero)
           THEN Min2(m4, VCommon(a.share, b.share)) ELSE m4
  IN IF i = j THEN Inputs[i].n
     ELSE IF a.fixed # b.fixed THEN 0
     ELSE IF m > 0 /\ AnchorsAgree(i, j, p, m) THEN m ELSE 0

-----------------------------------------------------------------------------
\* numbers in single precision make the results so
Loose == "loose" \in DOMAIN T
SameRT == IF Loose THEN F("2e-4") ELSE F("1e-11")
SameAT == IF Loose THEN F("2e-4") ELSE F("1e-11")

\* results of two runs, for the first m years
SameSeries(a, b, m, tag) ==
  LET names == SetToSeq(DOMAIN a.series \cap DOMAIN b.series)
  IN V([i \in 1..Len(names) |->
       LET n == names[i]
           d == VDifferIn(a.series[n], b.series[n], m, SameRT, SameAT)
       IN <<"same." \o n, d = 0,
            tag \o " differ at position " \o ToString(d) \o ": " \o
              (IF d > 0 THEN FStr(a.series[n][d]) \o " and " \o FStr(b.series[n][d]) ELSE "length")>>])

SameTable(key, a, b, m, tag) ==
  IF key \notin DOMAIN a.tables \/ key \notin DOMAIN b.tables THEN <<>>
  ELSE LET x == a.tables[key].cols
           z == b.tables[key].cols
           names == SetToSeq(DOMAIN x \cap DOMAIN z)
       IN V([i \in 1..Len(names) |->
            LET n == names[i]
                d == VDifferIn(x[n], z[n], m, SameRT, SameAT)
            IN <<"same." \o key \o "." \o n, d = 0,
                 tag \o " differ at position " \o ToString(d) \o ": " \o
                   (IF d > 0 THEN FStr(x[n][d]) \o " and " \o FStr(z[n][d]) ELSE "length")>>])
          \o <<<<"same." \o key \o ".columns", DOMAIN x = DOMAIN z, tag \o ": " \o SetMsg(DOMAIN x, DOMAIN z)>>,
               <<"same." \o key \o ".years",
                 VCommon(a.tables[key].years, b.tables[key].years) >= m, tag>>>>

SameResults(a, b, m, tag) ==
  SameSeries(a, b, m, tag)
  \o SameTable("emissions", a, b, m, tag) \o SameTable("concentrations", a, b, m, tag)
  \o SameTable("forcing", a, b, m, tag) \o SameTable("carbon cycle", a, b, m, tag)

-----------------------------------------------------------------------------
LInit == Init /\ canon = <<>> /\ log = <<>> /\ pairs = 0

LNew ==
  /\ New
  /\ canon' = (O["in"] :> CanonOf(In)) @@ canon
  /\ log' = Append(log, None)
  /\ UNCHANGED pairs

RunKey(c) ==
  [th |-> Resolve(ThermalDefaults(In.thermal), O.udm),
   em |-> IF In.mode = "ec" THEN Resolve(EmiconcDefaults, O.emi) ELSE None,
   life |-> IF In.mode = "ec" /\ ~In.concrun THEN O.lifetime ELSE "",
   just |-> O.justone,
   ca |-> c]

\* a run that was meant to fail: what it set stays set
Broken == "broken" \in DOMAIN O /\ O.broken

LRun ==
  /\ y = -1 /\ k <= Len(T.ops) /\ O.op = "run"
  /\ LET c == IF In.mode = "ec" THEN SetCarbon(In, cur[O.inst], O.carbon) ELSE None
         p == RunKey(c)
         same == IF Broken THEN {}
                 ELSE {j \in 1..Len(log) : log[j] # None /\ log[j].p = p /\ Agree(log[j].in, O["in"], p) > 0}
         js == SetToSeq(same)
         bad == IF Broken THEN {}
                ELSE IF Fails(T.id, "op " \o ToString(k), Alive) # {} THEN {1}
                ELSE Fails(T.id, "op " \o ToString(k), Untouched \o ShapeChecks(In, O, Obs)
                           \o FlattenSeq(V([i \in 1..Len(js) |->
                                SameResults(T.ops[js[i]].obs, Obs, Agree(log[js[i]].in, O["in"], p),
                                            "results of runs " \o ToString(js[i]) \o " and " \o ToString(k))])))
         dead == ~Broken /\ Failed
     IN /\ Cardinality(bad) >= 0
        /\ ~dead
        /\ log' = Append(log, IF Broken THEN None ELSE [in |-> O["in"], p |-> p])
        /\ pairs' = pairs + Cardinality(same)
        /\ UNCHANGED canon
        /\ Idle([cur EXCEPT ![O.inst] = c])

LDone == y = -1 /\ k = Len(T.ops) + 1 /\ Emit(<<"DONE", T.id, pairs>>) /\ FALSE

LNext == LNew \/ LRun \/ (LDone /\ UNCHANGED lvars)
LSpec == LInit /\ [][LNext]_lvars
=============================================================================
