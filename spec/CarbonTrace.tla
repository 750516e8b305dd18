---------------------------- MODULE CarbonTrace ----------------------------
(***************************************************************************)
(* Recorded histories of carbon cycle objects (see CarbonGen) against the  *)
(* specification. Numbers handed in and returned are recorded per year.    *)
(*   [op |-> "new"/"reset", p]                                             *)
(*   [op |-> "years", em, t, x, (box:) pools]                              *)
(*   [op |-> "back", c, t, e, (optional) tab, ocean, land]                 *)
(*   [op |-> "output", t, c, tab]                                          *)
(***************************************************************************)
EXTENDS Verdict, TraceIO, Params, Joos, Box, FiniteSets, IOUtils

Data == Load(IOEnv.TRACES)
Traces == Data.traces

VARIABLES t, k, cur, st, flux
vars == <<t, k, cur, st, flux>>

T == Traces[t]
O == T.ops[k]
IsBox == T.kind = "box"
None == <<>>
RT == F("1e-9")
AT == F("1e-9")
Steps == T.n * T.idtm

Default ==
  IF IsBox THEN [par |-> BoxDefaults, rs |-> None, rb |-> None]
  ELSE [par |-> JoosDefaults(F("278.0")), rs |-> [k |-> "default"], rb |-> [k |-> "default"]]
Given(c, p) ==
  IF IsBox THEN [c EXCEPT !.par = Persist(@, p)]
  ELSE [par |-> Persist(c.par, p), rs |-> JGiven(c.rs, p, "rs"), rb |-> JGiven(c.rb, p, "rb")]
\* the response functions of the parameters, over the years there are
Resp(c) == IF IsBox THEN [rs |-> None, rb |-> None]
           ELSE [rs |-> JRs(c.rs, Steps, T.idtm), rb |-> JRb(c.rb, Steps, T.idtm)]
Start(c) == IF IsBox THEN BInit ELSE JInit(c.par)
One1(c, s, em, temp) ==
  IF IsBox THEN BNext(c.par, s, em, temp)
  ELSE JNext(c.par, c.fs.rs, c.fs.rb, T.idtm, s, em, temp)

\* states after each of the years em, t
RECURSIVE Forward(_, _, _, _, _)
Forward(c, s, em, temp, i) ==
  IF i > Len(em) THEN <<>>
  ELSE LET n == One1(c, s, em[i], temp[i]) IN <<n>> \o Forward(c, n, em, temp, i + 1)

Alive == <<<<"exception", "exc" \notin DOMAIN O, IF "exc" \in DOMAIN O THEN O.exc ELSE "">>>>
Ok(ch) == Cardinality(Fails(T.id, "op " \o ToString(k), ch)) >= 0
Live == Fails(T.id, "op " \o ToString(k), Alive) = {}

Init == t \in 1..Len(Traces) /\ k = 1 /\ cur = None /\ st = None /\ flux = None

Begin(c0) ==
  LET c == Given(c0, O.p)
  IN /\ cur' = [par |-> c.par, rs |-> c.rs, rb |-> c.rb, fs |-> Resp(c)]
     /\ st' = Start(c)
     /\ flux' = <<>>
New == O.op = "new" /\ Live /\ Begin(Default) /\ k' = k + 1 /\ UNCHANGED t
Reset == O.op = "reset" /\ Live /\ Begin([par |-> cur.par, rs |-> cur.rs, rb |-> cur.rb]) /\ k' = k + 1 /\ UNCHANGED t

At2(what, i, exp, got) ==
  <<what, FClose(exp, got, RT, AT), "year " \o ToString(i) \o ": expected " \o FStr(exp) \o " got " \o FStr(got)>>

YearsOp ==
  /\ O.op = "years" /\ Live
  /\ LET ss == Forward(cur, st, O.em, O.t, 1)
         before == <<st>> \o ss
     IN /\ IF IsBox
           THEN Ok(V([i \in 1..Len(ss) |-> At2("carbon.CO2", i, ss[i].atm, O.x[i])])
                   \o (IF "pools" \notin DOMAIN O THEN <<>>
                       ELSE V([i \in 1..Len(ss) |-> At2("carbon.veg", i, ss[i].veg, O.pools.veg[i])])
                            \o V([i \in 1..Len(ss) |-> At2("carbon.soil", i, ss[i].soil, O.pools.soil[i])])
                            \o V([i \in 1..Len(ss) |-> At2("carbon.mixed", i, ss[i].mixed, O.pools.mixed[i])])
                            \o V([i \in 1..Len(ss) |-> At2("carbon.deep", i, ss[i].deep, O.pools.deep[i])])
                            \* recorded pools: what was added is what was emitted
                            \o V([i \in 1..(Len(ss) - 1) |->
                                  LET r(j) == [atm |-> O.x[j], veg |-> O.pools.veg[j], soil |-> O.pools.soil[j],
                                               mixed |-> O.pools.mixed[j], deep |-> O.pools.deep[j]]
                                  IN <<"carbon.conserve", BConserves(r(i), r(i + 1), O.em[i + 1]), "year " \o ToString(i)>>])))
           ELSE Ok(V([i \in 1..Len(ss) |-> At2("carbon.CO2", i, ss[i].x, O.x[i])]))
        /\ st' = ss[Len(ss)]
        /\ flux' = flux \o (IF IsBox THEN <<>>
                            ELSE V([i \in 1..Len(ss) |-> [o |-> JOceanFlux(ss[i], T.idtm), l |-> JLandFlux(ss[i])]]))
  /\ k' = k + 1 /\ UNCHANGED <<t, cur>>

Prod(i) == VConst(T.idtm, JProduction(cur.par, O.c[i], O.t[i]))
Prods(m) == FlattenSeq(V([i \in 1..m |-> Prod(i)]))

\* the emissions found give the concentrations back
BackOp ==
  /\ O.op = "back" /\ Live
  /\ LET ss == Forward(cur, Start(cur), O.e, O.t, 1)
         before == <<Start(cur)>> \o ss
         tabs == "tab" \in DOMAIN O
     IN Ok(V([i \in 1..Len(ss) |->
            <<"backcalc", FClose(ss[i].x, O.c[i], F("1.1e-7"), Zero)
                            \/ ~JSolvable(cur.par, cur.fs.rs, cur.fs.rb, T.idtm, before[i], Prods(i), i - 1,
                                          IF i = 1 THEN cur.par.preindustrial_co2_conc ELSE O.c[i-1], O.c[i], O.t[i]),
              "year " \o ToString(i) \o ": emissions " \o FStr(O.e[i]) \o " give " \o FStr(ss[i].x) \o " instead of " \o FStr(O.c[i])>>])
           \o (IF ~tabs THEN <<>>
               ELSE V([i \in 1..Len(ss) |-> At2("carbonout.ocean", i, JOceanFlux(ss[i], T.idtm), O.tab.ocean[i])])
                    \o V([i \in 1..Len(ss) |-> At2("carbonout.land", i, JLandFluxOf(Prods(i), cur.fs.rb, T.idtm), O.tab.land[i])])
                    \o V([i \in 1..Len(ss) |-> At2("carbonout.npp", i, JNpp(cur.par, O.t[i]), O.tab.npp[i])])
                    \o V([i \in 1..Len(ss) |-> At2("carbonout.depth", i, JDepth(cur.par, O.t[i]), O.tab.depth[i])])
                    \o V([i \in 1..Len(ss) |-> At2("carbonout.solubility", i, JSolubility(cur.par, O.t[i]), O.tab.sol[i])])))
  /\ st' = None
  /\ k' = k + 1 /\ UNCHANGED <<t, cur, flux>>

OutputOp ==
  /\ O.op = "output" /\ Live
  /\ IF IsBox
     THEN Ok(V([i \in 1..T.n |-> At2("carbonout.npp", i, BNpp(cur.par, O.c[i], O.t[i]), O.tab.npp[i])])
             \o V([i \in 1..T.n |-> At2("carbonout.ocean", i, BUptake(cur.par, O.c[i], O.t[i]), O.tab.ocean[i])]))
     ELSE Ok(V([i \in 1..T.n |-> At2("carbonout.ocean", i, flux[i].o, O.tab.ocean[i])])
             \o V([i \in 1..T.n |-> At2("carbonout.land", i, flux[i].l, O.tab.land[i])])
             \o V([i \in 1..T.n |-> At2("carbonout.npp", i, JNpp(cur.par, O.t[i]), O.tab.npp[i])])
             \o V([i \in 1..T.n |-> At2("carbonout.depth", i, JDepth(cur.par, O.t[i]), O.tab.depth[i])])
             \o V([i \in 1..T.n |-> At2("carbonout.solubility", i, JSolubility(cur.par, O.t[i]), O.tab.sol[i])]))
  /\ k' = k + 1 /\ UNCHANGED <<t, cur, st, flux>>

Step == k <= Len(T.ops) /\ (New \/ Reset \/ YearsOp \/ BackOp \/ OutputOp)
Done == k = Len(T.ops) + 1 /\ Emit(<<"DONE", T.id>>) /\ FALSE /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
