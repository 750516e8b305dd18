----------------------------- MODULE JobsTrace -----------------------------
(***************************************************************************)
(* Recorded processing of jobs against JobsAbs: each call of the function  *)
(* with the job its arguments belong to (0: none), its end, and what came  *)
(* back to the caller (results as the jobs they belong to).                *)
(***************************************************************************)
EXTENDS TLC, Verdict, TraceIO, IOUtils

Data == Load(IOEnv.TRACES)
Traces == Data.traces

VARIABLES t, k, n, fail, limit, begun, done, outcome
vars == <<t, k, n, fail, limit, begun, done, outcome>>
Abs == INSTANCE JobsAbs

T == Traces[t]
E == T.events[k]
Set(s) == {s[i] : i \in 1..Len(s)}

Init == t \in 1..Len(Traces) /\ k = 1 /\ Abs!AInit(T.n, Set(T.fail), T.limit)

\* event, clause it is about, action it has to be, what to say otherwise
Match(clause, A, msg) ==
  /\ k' = k + 1 /\ UNCHANGED t
  /\ IF ENABLED A THEN A
     ELSE /\ Fails(T.id, "event " \o ToString(k), <<<<clause, FALSE, msg>>>>) # {}
          /\ UNCHANGED <<n, fail, limit, begun, done, outcome>>

More == k <= Len(T.events)
Calls == More /\ E.ev = "call"
         /\ Match("call", Abs!Call(E.job),
                  "job " \o ToString(E.job) \o " called, already begun: " \o ToString(begun))
Ends == More /\ E.ev = "end" /\ Match("end", Abs!End(E.job), "end of job " \o ToString(E.job))
Returns == More /\ E.ev = "results"
           /\ Match("results", Abs!Return(E.value),
                    "returned " \o ToString(E.value) \o ", done " \o ToString(done) \o ", failing " \o ToString(fail))
Raises == More /\ E.ev = "raised"
          /\ Match("raised", Abs!Raise(E.job), "raised " \o E.what \o ", done " \o ToString(done))
Times == More /\ E.ev = "time" /\ Match("time", Abs!OutOfTime, "out of time with done " \o ToString(done))
Over == k = Len(T.events) + 1 /\ k' = k + 1 /\ UNCHANGED <<t, n, fail, limit, begun, done, outcome>>
        /\ Fails(T.id, "end", <<<<"outcome", outcome # <<"open">>, "no outcome">>>>) \subseteq {1}
        /\ Emit(<<"DONE", T.id>>)

Next == Calls \/ Ends \/ Returns \/ Raises \/ Times \/ Over
Spec == Init /\ [][Next]_vars
=============================================================================
