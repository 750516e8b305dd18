------------------------------ MODULE Regional ------------------------------
(***************************************************************************)
(* A gas table with regional aerosols.                                     *)
(*                                                                         *)
(* base: the table; factors[a][place]: forcing per mass emitted of aerosol *)
(* a, known by place; map: from the regions of the emissions to places;    *)
(* conv: from the unit of the factors to that of the model.                *)
(***************************************************************************)
EXTENDS Fx, Integers, Sequences, TLC

\* (JSON has no empty function)
RegMap(map) == [r \in (DOMAIN map) \ {""} |-> map[r]]

Regional(base, factors, map, conv) ==
  LET m == RegMap(map)
      pairs == (DOMAIN factors) \X (DOMAIN m)
      name(p) == p[1] \o "_" \o p[2]
      added == {name(p) : p \in pairs}
      of(n) == CHOOSE p \in pairs : name(p) = n
  IN [n \in added |-> [base[of(n)[1]] EXCEPT !.alpha = factors[of(n)[1]][m[of(n)[2]]] \otimes conv]]
     @@ base

\* a row is the same: text and numbers
RowEq(a, b) ==
  /\ DOMAIN a = DOMAIN b
  /\ \A c \in {"em_unit", "conc_unit", "conc"} : a[c] = b[c]
  /\ \A c \in (DOMAIN a) \ {"em_unit", "conc_unit", "conc"} : FClose(a[c], b[c], F("1e-12"), Zero)

\* what the builder made (r.got, r.names) of what it was given; r.same: what
\* it was given is as before
RegChecks(r) ==
  IF r.exc # "" THEN <<<<"exception", FALSE, r.exc>>>>
  ELSE LET want == Regional(r.base, r.factors, r.map, r.conv)
           miss == (DOMAIN want) \ (DOMAIN r.got)
           more == (DOMAIN r.got) \ (DOMAIN want)
           diff == {n \in (DOMAIN want) \cap (DOMAIN r.got) : ~RowEq(want[n], r.got[n])}
       IN <<<<"regtable", miss = {} /\ more = {}, "missing " \o ToString(miss) \o " unexpected " \o ToString(more)>>,
            <<"regtable", diff = {}, "rows differ: " \o ToString(diff)>>,
            <<"regtable", \A i, j \in 1..Len(r.names) : r.names[i] = r.names[j] => i = j, "a row appears twice">>,
            <<"regtable", r.same, "the builder changed what it was given">>>>
=============================================================================
