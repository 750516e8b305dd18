-------------------------------- MODULE Jobs --------------------------------
(***************************************************************************)
(* Processing a list of jobs as the code does it: a serial front, then     *)
(* (with a pool) a parallel front and the rest in parallel, or (without)   *)
(* the rest serially. In a parallel stage all jobs are handed to the pool, *)
(* which starts them in that order as workers become free; they end in any *)
(* order; the caller looks at them as they end and raises a failure it     *)
(* comes across, and collects the results in the order of the jobs.        *)
(*                                                                         *)
(* Checked exhaustively for small sizes: it implements JobsAbs, and it     *)
(* always comes to an outcome. Its behaviours are the schedules replayed   *)
(* into the real code.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceIO, Verdict, IOUtils

Dom == Load(IOEnv.DOM)    \* [n, fs, fp, workers, fails, limit]: bounds; emit

VARIABLES n, fs, fp, w, fail, limit, stage, queue, begun, done, seen, order, outcome
vars == <<n, fs, fp, w, fail, limit, stage, queue, begun, done, seen, order, outcome>>

Min(a, b) == IF a < b THEN a ELSE b
\* jobs of the stages
Front == 1..Min(fs, n)
PFront == IF w = 0 THEN {} ELSE (Min(fs, n) + 1)..Min(fs + fp, n)
Rest == (1..n) \ (Front \cup PFront)
Jobs(s) == CASE s = "front" -> Front [] s = "pfront" -> PFront [] OTHER -> Rest
Serial(s) == s = "front" \/ w = 0
NextStage(s) == CASE s = "front" -> (IF w > 0 THEN "pfront" ELSE "rest") [] s = "pfront" -> "rest" [] OTHER -> "collect"

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A z \in S : x <= z IN <<m>> \o SortedSeq(S \ {m})

Init ==
  /\ n \in 0..Dom.n /\ fs \in 0..Dom.fs /\ fp \in 0..Dom.fp /\ w \in 0..Dom.workers
  /\ limit \in (IF Dom.limit THEN {TRUE, FALSE} ELSE {FALSE})
  /\ fail \in {X \in SUBSET (1..n) : Cardinality(X) <= Dom.fails}
  /\ stage = "front" /\ queue = SortedSeq(Front)
  /\ begun = {} /\ done = {} /\ seen = {} /\ order = <<>>
  /\ outcome = <<"open">>

Running == begun \ done
Start ==
  /\ outcome = <<"open">>
  /\ queue # <<>>
  /\ Cardinality(Running) < (IF Serial(stage) THEN 1 ELSE w)
  /\ begun' = begun \cup {Head(queue)}
  /\ queue' = Tail(queue)
  /\ UNCHANGED <<n, fs, fp, w, fail, limit, stage, done, seen, order, outcome>>

End(j) ==
  /\ j \in Running
  /\ outcome = <<"open">>
  /\ done' = done \cup {j}
  /\ order' = Append(order, j)
  /\ UNCHANGED <<n, fs, fp, w, fail, limit, stage, queue, begun, seen, outcome>>

\* the caller looks at a job that has ended
See(j) ==
  /\ outcome = <<"open">>
  /\ j \in (done \cap Jobs(stage)) \ seen
  /\ IF j \in fail
     THEN outcome' = <<"raised", j>> /\ UNCHANGED seen
     ELSE seen' = seen \cup {j} /\ UNCHANGED outcome
  /\ UNCHANGED <<n, fs, fp, w, fail, limit, stage, queue, begun, done, order>>

Advance ==
  /\ outcome = <<"open">> /\ stage # "collect"
  /\ Jobs(stage) \subseteq seen
  /\ stage' = NextStage(stage)
  /\ queue' = IF stage' = "collect" THEN <<>> ELSE SortedSeq(Jobs(stage'))
  /\ UNCHANGED <<n, fs, fp, w, fail, limit, begun, done, seen, order, outcome>>

Collect ==
  /\ outcome = <<"open">> /\ stage = "collect"
  /\ outcome' = <<"results", SortedSeq(Front) \o SortedSeq(PFront) \o SortedSeq(Rest)>>
  /\ UNCHANGED <<n, fs, fp, w, fail, limit, stage, queue, begun, done, seen, order>>

TimeOut ==
  /\ outcome = <<"open">> /\ limit /\ ~Serial(stage) /\ stage # "collect"
  /\ ~(Jobs(stage) \subseteq done)
  /\ outcome' = <<"time">>
  /\ UNCHANGED <<n, fs, fp, w, fail, limit, stage, queue, begun, done, seen, order>>

Over == outcome # <<"open">>
Say == Over /\ Dom.emit
       /\ Emit(<<"JOBS", [n |-> n, fs |-> fs, fp |-> fp, w |-> w, fail |-> SortedSeq(fail), limit |-> limit,
                          order |-> order, outcome |-> outcome[1]]>>)
       /\ FALSE

Step == Start \/ Advance \/ Collect \/ TimeOut \/ \E j \in 1..n : End(j) \/ See(j)
Next == Step \/ (Say /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

-----------------------------------------------------------------------------
Abs == INSTANCE JobsAbs
ASpec == Abs!AInit(n, fail, limit) /\ [][Abs!ANext]_<<n, fail, limit, begun, done, outcome>>

TypeOK == /\ done \subseteq begun /\ begun \subseteq 1..n
          /\ stage \in {"front", "pfront", "rest", "collect"}
InOrder == outcome[1] = "results" => outcome[2] = [j \in 1..n |-> j]
NoLoss == outcome[1] = "results" => done = 1..n /\ fail = {}
Serially == (fs >= n \/ w = 0) => \A i \in 1..Len(order) : order[i] = i
Ends == <>Over
=============================================================================
