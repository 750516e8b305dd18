--------------------------- MODULE ThermalTrace ---------------------------
(***************************************************************************)
(* Recorded histories of thermal models (see ThermalGen) against the       *)
(* specification:                                                          *)
(*   [op |-> "new", inst, p]           a new model                         *)
(*   [op |-> "share", inst, w, fb]     the aerosol share from now on, and  *)
(*                                     the feedback the model tells        *)
(*   [op |-> "years", inst, fn, fs, vn, vs, out]   a year per element      *)
(* Besides following the equations:                                        *)
(*   - what is conserved is conserved by what the real model reported,     *)
(*   - a model that has never felt any forcing reports exactly nothing.    *)
(* Models may be made from one and the same parameter set.                 *)
(***************************************************************************)
EXTENDS Verdict, TraceIO, Params, TwoLayer, Udm, FiniteSets, TLC, IOUtils

Data == Load(IOEnv.TRACES)
Traces == Data.traces

VARIABLES t, k, m
vars == <<t, k, m>>

T == Traces[t]
O == T.ops[k]
Two2 == T.model = "twolayer"
None == <<>>
RT == F("1e-9")

Alive == <<<<"exception", "exc" \notin DOMAIN O, IF "exc" \in DOMAIN O THEN O.exc ELSE "">>>>
Live == Fails(T.id, "op " \o ToString(k), Alive) = {}
Ok(ch) == Cardinality(Fails(T.id, "op " \o ToString(k) \o " (" \o O.inst \o ")", ch)) >= 0

Init == t \in 1..Len(Traces) /\ k = 1 /\ m = [i \in {} |-> None]

Base(p) == IF Two2 THEN p.lambda ELSE One \oslash p.lambda
Feedback(p, w) == IF Two2 THEN TLFeedback(p, w) ELSE UFeedback(p, w)

\* quiet: no forcing so far; log: all that was given since it was made
New ==
  /\ O.op = "new" /\ Live
  /\ LET p == Resolve(ThermalDefaults(T.model), O.p)
     IN /\ Ok(<<<<"thermal.feedback", FClose(Base(p), O.fb, RT, Zero), FStr(Base(p)) \o " got " \o FStr(O.fb)>>>>)
        /\ m' = (O.inst :> [p |-> p, lam |-> Base(p), quiet |-> TRUE,
                            st |-> IF Two2 THEN TLInit ELSE UInit(p)]) @@ m

Share ==
  /\ O.op = "share" /\ Live
  /\ LET x == m[O.inst]
         lam == Feedback(x.p, O.w)
     IN /\ Ok(<<<<"thermal.feedback", FClose(lam, O.fb, RT, Zero), FStr(lam) \o " got " \o FStr(O.fb)>>>>)
        /\ m' = [m EXCEPT ![O.inst].lam = lam]

NoForcing(i) ==
  /\ FEq(O.fn[i], Zero) /\ FEq(O.fs[i], Zero)
  /\ \A j \in 1..Len(O.vn[i]) : FEq(O.vn[i][j], Zero) /\ FEq(O.vs[i][j], Zero)

Step(x, i) ==
  IF Two2
  THEN LET f == TLForcing(O.fn[i], O.fs[i], O.vn[i], O.vs[i])
           s == TLNext(x.p, x.st, x.lam, f)
       IN [st |-> s, out |-> TLOut(x.p, s, x.lam, f)]
  ELSE UNext(x.p, UConsts(x.p, x.lam), x.st, O.fn[i], O.fs[i], O.vn[i], O.vs[i])

\* the same year by the pools the real model reported
Recorded(i) == [tf |-> O.out[i].dT_fast, ts |-> O.out[i].dT_slow]

Heat(n) == n \in {"OHC700", "OHCTOT", "OHC_DEEP", "OHC_MIXED"}

RECURSIVE Run(_, _)
Run(x, i) ==
  IF i > Len(O.fn) THEN x
  ELSE LET r == Step(x, i)
           q == x.quiet /\ NoForcing(i)
           names == DOMAIN O.out[i]
           bad == {n \in names : ~FClose(r.out[n], O.out[i][n], RT, IF Heat(n) THEN F("1e-8") ELSE F("1e-9"))}
           ch == <<<<"thermal.step", bad = {}, "year " \o ToString(i) \o ": " \o
                       (IF bad = {} THEN "" ELSE LET n == CHOOSE z \in bad : TRUE
                        IN ToString(bad) \o " " \o n \o " expected " \o FStr(r.out[n]) \o " got " \o FStr(O.out[i][n]))>>,
                   <<"thermal.quiet", q => \A n \in names : FEq(r.out[n], Zero) => FEq(O.out[i][n], Zero), "year " \o ToString(i) \o ": change without forcing">>>>
                 \o (IF ~Two2 \/ i = 1 THEN <<>>
                     ELSE <<<<"thermal.conserve",
                              TLConserves(x.p, Recorded(i - 1), Recorded(i), x.lam,
                                          TLForcing(O.fn[i], O.fs[i], O.vn[i], O.vs[i])),
                              "year " \o ToString(i) \o ": heat gained is not the imbalance">>>>)
       IN IF Fails(T.id, "op " \o ToString(k) \o " (" \o O.inst \o ")", ch) # {} THEN [x EXCEPT !.p = None]
          ELSE Run([x EXCEPT !.st = r.st, !.quiet = q], i + 1)

Years ==
  /\ O.op = "years" /\ Live
  /\ m' = [m EXCEPT ![O.inst] = Run(@, 1)]

\* after a deviation a model is followed no further
Dead == O.op # "new" /\ m[O.inst].p = None /\ UNCHANGED m

Next ==
  \/ /\ k <= Len(T.ops)
     /\ IF O.op # "new" /\ m[O.inst].p = None THEN Dead ELSE New \/ Share \/ Years
     /\ k' = k + 1 /\ UNCHANGED t
  \/ k = Len(T.ops) + 1 /\ Emit(<<"DONE", T.id>>) /\ FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
=============================================================================
