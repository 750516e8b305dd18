-------------------------------- MODULE Par --------------------------------
(***************************************************************************)
(* Scenarios 1..S with configurations 1..C, worked off by W workers.       *)
(*                                                                         *)
(* The code makes batches: a scenario with some of the configurations. A   *)
(* batch makes one instance of the scenario and runs its configurations    *)
(* one after the other. An instance keeps carbon cycle parameters that a   *)
(* run gives (cfg c gives them if c is in Gives), so what a run sees       *)
(* depends on the copy of the instance it works on.                        *)
(*                                                                         *)
(* Wanted: in the end exactly one row per scenario and configuration, with *)
(* what a fresh instance gives.                                            *)
(*                                                                         *)
(* Checked exhaustively for small S, C, W; the cases are replayed into the *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceIO, Verdict, IOUtils

Dom == Load(IOEnv.DOM)         \* bounds s, c, w of the model, bs, bc, bw of the batches alone; emit

VARIABLES s, c, w, gives, batches, busy, rows
vars == <<s, c, w, gives, batches, busy, rows>>

Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Chunks(_, _, _)
Chunks(from, to, size) ==
  IF from > to THEN <<>>
  ELSE <<[i \in 1..(Min(from + size - 1, to) - from + 1) |-> from + i - 1]>> \o Chunks(from + size, to, size)

RECURSIVE Cross(_, _, _)
Cross(scen, last, cs) ==
  IF scen > last THEN <<>>
  ELSE [i \in 1..Len(cs) |-> [scen |-> scen, cfgs |-> cs[i]]] \o Cross(scen + 1, last, cs)

BatchesOf(S, C, W) ==
  IF S >= W \/ C * S < W THEN Cross(1, S, <<[i \in 1..C |-> i]>>)
  ELSE Cross(1, S, Chunks(1, C, (C * S) \div W))

\* every scenario and configuration is in exactly one batch, once
Covers(S, C, W) ==
  LET b == BatchesOf(S, C, W)
      At(x, z) == {<<i, j>> \in (1..Len(b)) \X (1..C) : b[i].scen = x /\ j <= Len(b[i].cfgs) /\ b[i].cfgs[j] = z}
  IN /\ \A x \in 1..S, z \in 1..C : Cardinality(At(x, z)) = 1
     /\ \A i \in 1..Len(b) : Len(b[i].cfgs) > 0
ASSUME \A S \in 1..Dom.bs, C \in 1..Dom.bc, W \in 1..Dom.bw : Covers(S, C, W)

Init ==
  /\ s \in 1..Dom.s /\ c \in 1..Dom.c /\ w \in 1..Dom.w
  /\ gives \in {{}, {1}, {x \in 1..c : x % 2 = 0}, 1..c}
  /\ batches = BatchesOf(s, c, w)
  /\ busy = {} /\ rows = <<>>

\* a worker takes the next batch: an instance with default parameters
Take ==
  /\ batches # <<>> /\ Cardinality(busy) < w
  /\ busy' = busy \cup {[b |-> Len(batches), scen |-> Head(batches).scen, todo |-> Head(batches).cfgs, inst |-> 0]}
  /\ batches' = Tail(batches)
  /\ UNCHANGED <<s, c, w, gives, rows>>

\* it runs the next configuration on a copy of the instance
Work(x) ==
  /\ x \in busy /\ x.todo # <<>>
  /\ LET cfg == Head(x.todo)
         copy == x.inst
         used == IF cfg \in gives THEN cfg ELSE copy
     IN /\ rows' = Append(rows, <<x.scen, cfg, used>>)
        /\ busy' = (busy \ {x}) \cup {[x EXCEPT !.todo = Tail(@)]}
  /\ UNCHANGED <<s, c, w, gives, batches>>

Leave(x) ==
  /\ x \in busy /\ x.todo = <<>>
  /\ busy' = busy \ {x}
  /\ UNCHANGED <<s, c, w, gives, batches, rows>>

Over == batches = <<>> /\ busy = {}
Say == Over /\ Dom.emit /\ Emit(<<"PAR", s, c, w, SetToSeq(gives)>>) /\ FALSE
Step == Take \/ \E x \in busy : Work(x) \/ Leave(x)
Next == Step \/ (Say /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

\* the order of rows is no part of it
View == <<s, c, w, gives, batches, busy, {rows[i] : i \in 1..Len(rows)}, Len(rows)>>

Fresh(scen, cfg) == <<scen, cfg, IF cfg \in gives THEN cfg ELSE 0>>
Right == \A i \in 1..Len(rows) : rows[i] = Fresh(rows[i][1], rows[i][2])
Complete == Over => /\ {rows[i] : i \in 1..Len(rows)} = {Fresh(x, z) : x \in 1..s, z \in 1..c}
                    /\ Len(rows) = s * c
Ends == <>Over
=============================================================================
