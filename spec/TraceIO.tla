------------------------------ MODULE TraceIO ------------------------------
(***************************************************************************)
(* Reading recorded data. Load(path) is the value in a JSON file: objects  *)
(* are records, arrays sequences, numbers integers; a string "=<16 hex>"   *)
(* is a real (see Fx) and "#<16 hex>..." a sequence of reals.              *)
(***************************************************************************)
Load(path) == CHOOSE x : x \notin {}      \* overridden by java/TraceIO.java
=============================================================================
