---------------------------- MODULE RefuseTrace ----------------------------
(***************************************************************************)
(* Recorded histories of creations and runs, some with inputs or           *)
(* parameters that cannot be used. Whether they can be used is decided     *)
(* here, from what the inputs hold:                                        *)
(*   in: [mode, ny0, n, emstart, thermal, carbon, absent, nofile,          *)
(*        emyears, concyears, natch4, natn2o (years), sunvolc, sun, vn,    *)
(*        vs, luc (number of years from the first), forc (years), gases,   *)
(*        emunits, concunits, afolu, emcols, conccols, own, resp]          *)
(* An operation is                                                         *)
(*   [op, inst, in, ok, mutated, resp, just, ref, life, obs, want]         *)
(* with obs what the run returned and want what the same run returns in a  *)
(* process of its own in which nothing has been refused.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceIO, Verdict, IOUtils

Data == Load(IOEnv.TRACES)
Traces == Data.traces
VARIABLES t, k, live
vars == <<t, k, live>>
T == Traces[t]
O == T.ops[k]
In == T.inputs[O["in"]]
Set(s) == {s[i] : i \in 1..Len(s)}

Window(in) == in.ny0..(in.ny0 + in.n - 1)
EC(in) == in.mode # "rf"
Once(s, years) == \A y \in years : Cardinality({i \in 1..Len(s) : s[i] = y}) = 1

\* years in which values are needed
ConcYears(in) == IF in.mode = "conc" THEN Window(in) ELSE {y \in Window(in) : y = in.ny0 \/ y < in.emstart}
Driven(in) == IF in.mode = "em" THEN {y \in Window(in) : y >= in.emstart} ELSE {}

\* a response function: [w, nc, nt, bad] with nc coefficients, nt timescales; bad: negative ones or a zero timescale
BadResp(r) == r.bad \/ (IF r.w = "rs" THEN r.nc # r.nt + 1 ELSE r.nc # r.nt)

\* gases in both the table and the file, in another unit
UnitsDiffer(units, gases, which) ==
  \E g \in DOMAIN units \cap DOMAIN gases : gases[g][which] # units[g]

Whole(in) == in.gases
Gassy(in) == {g \in DOMAIN in.gases : in.gases[g].conc # "-"}

\* why inputs cannot be used (empty if they can)
Wrong(in) ==
  (IF Len(in.nofile) > 0 THEN {"a file is not there"} ELSE {})
  \cup (IF in.thermal \notin {"default", "twolayer"} THEN {"no such thermal model"} ELSE {})
  \cup (IF in.sunvolc /\ (in.sun < in.n \/ in.vn < in.n \/ in.vs < in.n) THEN {"solar or volcanic forcing too short"} ELSE {})
  \cup (IF ~EC(in) THEN IF Once(in.forc, Window(in)) THEN {} ELSE {"years without forcing"}
        ELSE
          (IF Len(in.absent) > 0 THEN {"no " \o ToString(in.absent)} ELSE {})
          \cup (IF in.carbon \notin {"default", "box"} THEN {"no such carbon cycle"} ELSE {})
          \cup (IF in.luc < in.n THEN {"land use too short"} ELSE {})
          \cup (IF Len(in.absent) > 0 THEN {}
                ELSE (IF Once(in.emyears, Window(in)) THEN {} ELSE {"years without emissions"})
                     \cup (IF Once(in.concyears, ConcYears(in)) THEN {} ELSE {"years without concentrations"})
                     \cup (IF UnitsDiffer(in.emunits, in.gases, "em") \/ ("CO2" \in DOMAIN in.emunits /\ in.afolu # in.gases["CO2"].em)
                           THEN {"emissions in another unit"} ELSE {})
                     \cup (IF UnitsDiffer(in.concunits, in.gases, "conc") THEN {"concentrations in another unit"} ELSE {})
                     \cup (IF Gassy(in) \subseteq Set(in.conccols) THEN {} ELSE {"a gas without concentrations"})
                     \cup (IF Driven(in) = {} \/ (Gassy(in) \ {"CO2"}) \subseteq Set(in.emcols) THEN {} ELSE {"a gas without emissions"})
                     \cup (IF Set(in.own) \subseteq Set(in.emcols) THEN {} ELSE {"a component without emissions"}))
          \cup (IF Driven(in) \subseteq Set(in.natch4) /\ Driven(in) \subseteq Set(in.natn2o) THEN {} ELSE {"years without natural emissions"})
          \cup (IF in.carbon # "box" /\ \E i \in 1..Len(in.resp) : BadResp(in.resp[i]) THEN {"a response function that is none"} ELSE {}))

\* nothing at all is amiss, needed or not
Complete(in) == in.sound /\ Wrong(in) = {}

WrongRun(in, o) ==
  IF ~EC(in) THEN {}
  ELSE (IF in.carbon # "box" /\ \E i \in 1..Len(o.resp) : BadResp(o.resp[i]) THEN {"a response function that is none"} ELSE {})
       \cup (IF o.just # "" /\ o.just \notin DOMAIN in.gases THEN {"no such component"} ELSE {})
       \cup (IF o.ref \notin Set(in.emyears) THEN {"no emissions in the reference year"} ELSE {})
CompleteRun(in, o) == o.sound /\ WrongRun(in, o) = {}

-----------------------------------------------------------------------------
Init == t \in 1..Len(Traces) /\ k = 1 /\ live = {}

Place == "operation " \o ToString(k)
Untouched == <<<<"untouched", O.mutated = <<>>, "changed: " \o ToString(O.mutated)>>>>

New ==
  /\ k <= Len(T.ops) /\ O.op = "new"
  /\ Cardinality(Fails(T.id, Place,
       <<<<"accepted", O.ok \/ ~Complete(In), "refused although nothing is wrong: " \o O.exc>>>> \o Untouched)) >= 0
  /\ live' = IF O.ok THEN live \cup {O.inst} ELSE live

Series == SetToSeq(DOMAIN O.want.series \cap DOMAIN O.obs.series)
Cols(key) == SetToSeq(DOMAIN O.want.tables[key].cols \cap DOMAIN O.obs.tables[key].cols)
Tight == F("1e-11")
Same ==
  [i \in 1..Len(Series) |->
     <<"same", VDiffer(O.want.series[Series[i]], O.obs.series[Series[i]], Tight, Tight) = 0,
       Series[i] \o " is not what it is when nothing was refused before">>]
  \o FlattenSeq([j \in 1..Len(SetToSeq(DOMAIN O.obs.tables)) |->
       LET key == SetToSeq(DOMAIN O.obs.tables)[j]
       IN IF key \notin DOMAIN O.want.tables THEN <<<<"same", FALSE, "unexpected " \o key>>>>
          ELSE [i \in 1..Len(Cols(key)) |->
                 <<"same", VDiffer(O.want.tables[key].cols[Cols(key)[i]], O.obs.tables[key].cols[Cols(key)[i]], Tight, Tight) = 0,
                   key \o " " \o Cols(key)[i] \o " is not what it is when nothing was refused before">>]])

Run ==
  /\ k <= Len(T.ops) /\ O.op = "run"
  /\ live' = live
  /\ IF O.inst \notin live THEN TRUE
     ELSE LET w == Wrong(In) \cup WrongRun(In, O)
              ok == Complete(In) /\ CompleteRun(In, O)
          IN Cardinality(Fails(T.id, Place,
               <<<<"refused", ~O.ok \/ w = {}, "results although: " \o ToString(w)>>,
                 <<"accepted", O.ok \/ ~ok, "refused although nothing is wrong: " \o O.exc>>>>
               \o Untouched
               \o (IF O.ok /\ ok /\ "want" \in DOMAIN O THEN Same ELSE <<>>))) >= 0

Step == (New \/ Run) /\ k' = k + 1 /\ UNCHANGED t
Over == k = Len(T.ops) + 1 /\ Emit(<<"DONE", T.id>>) /\ k' = k + 1 /\ UNCHANGED <<t, live>>
Next == Step \/ Over
Spec == Init /\ [][Next]_vars
=============================================================================
