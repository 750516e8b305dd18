------------------------------ MODULE Verdict ------------------------------
(***************************************************************************)
(* Total verdicts for trace specifications. A clause that does not hold is *)
(* written to the output with its name and place and the trace goes on, so *)
(* that the rest of the trace is looked at as well.                        *)
(***************************************************************************)
EXTENDS Fx, Sequences, Integers

Emit(v) == TRUE        \* overridden: prints v on a line of its own

\* The names of the clauses in checks that do not hold. A check is
\* <<name, holds, message>>; message is only evaluated for failing clauses.
Fails(id, where, checks) ==
  {i \in 1..Len(checks) :
     ~checks[i][2] /\ Emit(<<"FAIL", id, checks[i][1], where, checks[i][3]>>)}

\* the elements of a set in some order; all of a sequence of sequences
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE z \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
RECURSIVE Flat(_, _)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i + 1)
FlattenSeq(ss) == Flat(ss, 1)

\* a real against its expected value
Near(name, exp, got, rt, at) ==
  <<name, FClose(exp, got, rt, at), "expected " \o FStr(exp) \o " got " \o FStr(got)>>
=============================================================================
