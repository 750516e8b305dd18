------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* Where the results of a run go: to the instance (in memory) or to files  *)
(* <folder>/<prefix>_<kind>.txt. The disk is a function from files to the  *)
(* run whose numbers they hold.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceIO, Verdict, IOUtils

Always == {"temp", "rib", "ohc", "sunvolc", "forc"}
Kinds(rf, carbon) == Always \cup (IF rf THEN {} ELSE {"em", "conc"} \cup (IF carbon THEN {"carbon"} ELSE {}))
Path(dir, pre, kind) == dir \o "/" \o pre \o "_" \o kind \o ".txt"
Written(o, rf) == IF o.dict THEN {} ELSE {Path(o.dir, o.prefix, kind) : kind \in Kinds(rf, o.carbon)}

\* the disk after run number r with options o
Write(disk, o, rf, r) == [p \in Written(o, rf) |-> r] @@ disk
\* what the instance holds after it
Held(o, rf) == {"thermal"} \cup (IF rf \/ ~o.dict THEN {} ELSE {"tables"} \cup (IF o.carbon THEN {"carbon"} ELSE {}))

-----------------------------------------------------------------------------
Dom == Load(IOEnv.DOM)          \* [dirs, prefixes, max]
Set(s) == {s[i] : i \in 1..Len(s)}
Options == [dict : BOOLEAN, dir : Set(Dom.dirs), prefix : Set(Dom.prefixes), carbon : BOOLEAN]
VARIABLES rf, disk, held, hist
vars == <<rf, disk, held, hist>>
Init == rf \in BOOLEAN /\ disk = [p \in {} |-> 0] /\ held = {} /\ hist = <<>>
Run(o) ==
  /\ Len(hist) < Dom.max
  /\ disk' = Write(disk, o, rf, Len(hist) + 1)
  /\ held' = Held(o, rf)
  /\ hist' = Append(hist, o)
  /\ UNCHANGED rf
Next == \E o \in Options : Run(o)
Spec == Init /\ [][Next]_vars

\* the last run's files are all its own; every file is of the last run that was asked to write it; nothing
\* is written without being asked for
Last == Len(hist) > 0 => \A p \in Written(hist[Len(hist)], rf) : p \in DOMAIN disk /\ disk[p] = Len(hist)
Latest == \A p \in DOMAIN disk : /\ p \in Written(hist[disk[p]], rf)
                                 /\ \A i \in (disk[p] + 1)..Len(hist) : p \notin Written(hist[i], rf)
Asked == DOMAIN disk = UNION {Written(hist[i], rf) : i \in 1..Len(hist)}
=============================================================================
