---------------------------- MODULE OutputTrace ----------------------------
(***************************************************************************)
(* Recorded runs with their files. An event is                             *)
(*   [opts |-> [dict, dir, prefix, carbon], obs |-> what the instance has, *)
(*    ref |-> what a run that returns everything has, disk |-> the files]  *)
(* with files [path, raw, names, years, cols, ok].                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceIO, Verdict, IOUtils

O == INSTANCE Output WITH rf <- FALSE, disk <- <<>>, held <- {}, hist <- <<>>

Data == Load(IOEnv.TRACES)
Traces == Data.traces
VARIABLES t, k, disk
T == Traces[t]
E == T.events[k + 1]
Init == t \in 1..Len(Traces) /\ k = 0 /\ disk = [p \in {} |-> 0]

Paths(ev) == {ev.disk[i].path : i \in 1..Len(ev.disk)}
File(ev, p) == ev.disk[CHOOSE i \in 1..Len(ev.disk) : ev.disk[i].path = p]
Set(s) == {s[i] : i \in 1..Len(s)}

Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
\* the columns of a kind of file, as in memory: name :> vector
Expected(kind, ref) ==
  CASE kind = "temp" -> [n \in {m \in DOMAIN ref.series : Starts(m, "dT")} |-> ref.series[n]]
    [] kind = "rib" -> [n \in {m \in DOMAIN ref.series : Starts(m, "RIB")} |-> ref.series[n]]
    [] kind = "ohc" -> [n \in {m \in DOMAIN ref.series : Starts(m, "OHC")} |-> ref.series[n]]
    [] kind = "sunvolc" -> [n \in {m \in DOMAIN ref.series : Starts(m, "Solar") \/ Starts(m, "Volcanic")} |-> ref.series[n]]
    [] kind = "forc" -> IF T.rf THEN [n \in {"Total_forcing"} |-> ref.series[n]] ELSE ref.tables["forcing"].cols
    [] kind = "em" -> ref.tables["emissions"].cols
    [] kind = "conc" -> ref.tables["concentrations"].cols
    [] OTHER -> ref.tables["carbon cycle"].cols

\* the columns there have to be (thermal models may return further ones, which need not be in the files)
Required(kind, ref) ==
  CASE kind = "temp" -> {"dT_glob", "dT_NH", "dT_SH", "dT_glob_air", "dT_NH_air", "dT_SH_air", "dT_glob_sea", "dT_NH_sea", "dT_SHsea"}
                          \cap DOMAIN ref.series
    [] kind = "ohc" -> {"OHC700", "OHCTOT"}
    [] OTHER -> DOMAIN Expected(kind, ref)

\* printed with five decimals
RT == F("5.0001e-6")
AT == F("1e-300")
Years == [i \in 1..T.n |-> T.y0 + i - 1]
FileChecks(kind) ==
  LET p == O!Path(E.opts.dir, E.opts.prefix, kind)
  IN IF p \notin Paths(E) THEN <<<<"file", FALSE, "no file " \o p>>>>
     ELSE LET f == File(E, p)
              want == Expected(kind, E.ref)
              cols == SetToSeq(DOMAIN want \cap Set(f.names))
          IN <<<<"years", IF f.noyear THEN kind = "carbon" /\ f.rows = T.n ELSE f.years = Years, p \o " years">>,
               <<"columns", /\ Set(f.names) \subseteq DOMAIN want /\ Required(kind, E.ref) \subseteq Set(f.names)
                            /\ Len(f.names) = Cardinality(Set(f.names)),
                 p \o " columns " \o ToString(f.names) \o " instead of " \o ToString(Required(kind, E.ref))>>>>
             \o [i \in 1..Len(cols) |->
                   LET d == VDiffer(want[cols[i]], f.cols[cols[i]], RT, AT)
                   IN <<"values", d = 0, p \o " column " \o cols[i] \o " differs at row " \o ToString(d) \o
                        (IF d > 0 THEN ": " \o FStr(f.cols[cols[i]][d]) \o " for " \o FStr(want[cols[i]][d]) ELSE "")>>]

Same(a, b) == a.path = b.path /\ a.raw = b.raw
\* files of other runs are left alone; no other files appear
Rest ==
  LET after == O!Write(disk, E.opts, T.rf, k + 1)
      old == {p \in DOMAIN after : after[p] # k + 1}
  IN <<<<"nothing else", Paths(E) \ DOMAIN after = {}, "unexpected files " \o ToString(Paths(E) \ DOMAIN after)>>,
       <<"left alone", \A p \in old : p \in Paths(E) /\ File(E, p) = File(T.events[k], p), "a file of another run has changed">>>>

Tight == F("1e-12")
SeriesChecks ==
  LET names == SetToSeq(DOMAIN E.ref.series \cap DOMAIN E.obs.series)
  IN <<<<"series", DOMAIN E.ref.series = DOMAIN E.obs.series, "in memory " \o ToString(DOMAIN E.obs.series) \o " instead of " \o ToString(DOMAIN E.ref.series)>>>>
     \o [i \in 1..Len(names) |->
           <<"memory", VDiffer(E.ref.series[names[i]], E.obs.series[names[i]], Tight, Tight) = 0, names[i] \o " differs in memory">>]
HeldChecks ==
  LET h == O!Held(E.opts, T.rf)
      want == (IF "tables" \in h THEN {"emissions", "concentrations", "forcing"} ELSE {}) \cup (IF "carbon" \in h THEN {"carbon cycle"} ELSE {})
  IN <<<<"held", DOMAIN E.obs.tables = want, "tables in memory " \o ToString(DOMAIN E.obs.tables) \o " instead of " \o ToString(want)>>>>

Step ==
  /\ k < Len(T.events) /\ k' = k + 1 /\ UNCHANGED t
  /\ IF "exc" \in DOMAIN E
     THEN /\ Fails(T.id, "run " \o ToString(k + 1), <<<<"exception", FALSE, E.exc>>>>) # {}
          /\ UNCHANGED disk
     ELSE /\ disk' = O!Write(disk, E.opts, T.rf, k + 1)
          /\ Cardinality(Fails(T.id, "run " \o ToString(k + 1),
               (IF E.opts.dict THEN <<>>
                ELSE FlattenSeq([i \in 1..Cardinality(O!Kinds(T.rf, E.opts.carbon)) |->
                                   FileChecks(SetToSeq(O!Kinds(T.rf, E.opts.carbon))[i])]))
               \o Rest \o SeriesChecks \o HeldChecks)) >= 0
Over == k = Len(T.events) /\ k' = k + 1 /\ UNCHANGED <<t, disk>> /\ Emit(<<"DONE", T.id>>)
Next == Step \/ Over
Spec == Init /\ [][Next]_<<t, k, disk>>
=============================================================================
