------------------------------ MODULE JobsAbs ------------------------------
(***************************************************************************)
(* What processing a list of jobs means, whatever way it is done.          *)
(*                                                                         *)
(* Jobs 1..n are each called at most once. When all have been called and   *)
(* none failed, the results are returned in the order of the jobs; if one  *)
(* failed its failure is raised; running out of time is raised only if     *)
(* there is a limit and a job that is not done.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES n, fail, limit, begun, done, outcome
avars == <<n, fail, limit, begun, done, outcome>>

\* result of job j stands for the value the function returns for its arguments
Result(j) == j
Results == [j \in 1..n |-> Result(j)]

AInit(N, F, L) ==
  /\ n = N /\ fail = F /\ limit = L
  /\ begun = {} /\ done = {} /\ outcome = <<"open">>

Call(j) ==
  /\ j \in 1..n /\ j \notin begun
  /\ begun' = begun \cup {j}
  /\ UNCHANGED <<n, fail, limit, done, outcome>>

End(j) ==
  /\ j \in begun \ done
  /\ done' = done \cup {j}
  /\ UNCHANGED <<n, fail, limit, begun, outcome>>

Return(r) ==
  /\ outcome = <<"open">>
  /\ done = 1..n /\ fail = {}
  /\ r = Results
  /\ outcome' = <<"results", r>>
  /\ UNCHANGED <<n, fail, limit, begun, done>>

Raise(j) ==
  /\ outcome = <<"open">>
  /\ j \in fail \cap done
  /\ outcome' = <<"raised", j>>
  /\ UNCHANGED <<n, fail, limit, begun, done>>

OutOfTime ==
  /\ outcome = <<"open">> /\ limit
  /\ done # 1..n
  /\ outcome' = <<"time">>
  /\ UNCHANGED <<n, fail, limit, begun, done>>

ANext == \/ \E j \in 1..n : Call(j) \/ End(j) \/ Raise(j)
         \/ Return(Results) \/ OutOfTime
=============================================================================
