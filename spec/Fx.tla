-------------------------------- MODULE Fx --------------------------------
(***************************************************************************)
(* Real arithmetic for the CICERO-SCM specification.                       *)
(*                                                                         *)
(* TLC has 32 bit integers only, the model is a numerical one. A real is   *)
(* carried as <<hi, lo>>, the two halves of an IEEE double; the operators  *)
(* below are evaluated by java/Fx.java (same names). Nothing in this       *)
(* module knows about the climate model: it is +, -, *, /, exp, log, sqrt, *)
(* pow, comparisons and plain vector arithmetic.                           *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

LOCAL Undef == CHOOSE x : x \notin {}      \* always overridden

F(s) == Undef            \* the real written as the string s, e.g. F("2.123")
FI(i) == Undef           \* the integer i as a real
FStr(x) == Undef         \* a real as a string, for messages
FAdd(x, y) == Undef
FSub(x, y) == Undef
FMul(x, y) == Undef
FDiv(x, y) == Undef
FNeg(x) == Undef
FAbs(x) == Undef
FExp(x) == Undef
FLog(x) == Undef
FSqrt(x) == Undef
FPow(x, y) == Undef
FMax(x, y) == Undef
FMin(x, y) == Undef
FFloor(x) == Undef
FToInt(x) == Undef       \* truncation to an integer
FLt(x, y) == Undef
FLe(x, y) == Undef
FEq(x, y) == Undef
FFinite(x) == Undef      \* neither NaN nor infinite
\* |x - y| <= at + rt * max(|x|, |y|), or both NaN
FClose(x, y, rt, at) == Undef

FSum(f) == Undef         \* sum of f[x] over all x in DOMAIN f (0 if empty)
V(f) == Undef            \* a function on 1..n as a (materialised) sequence
VConst(n, x) == Undef    \* n times x
VAdd(x, y) == Undef      \* elementwise
VSub(x, y) == Undef
VMul(x, y) == Undef
VDiv(x, y) == Undef
VScale(s, x) == Undef
VSum(x) == Undef
VSort(x) == Undef        \* the same numbers, ascending
VMean(x) == Undef
VMaxAbs(x) == Undef
VDot(x, y) == Undef
VConv(x, y, lo, hi, k) == Undef   \* sum over j in lo..hi of x[j] * y[k - j]
VCumsum(x) == Undef
\* first index where x and y differ by more than the tolerances, 0 if none,
\* -1 if the lengths differ
VDiffer(x, y, rt, at) == Undef
\* number of equal leading elements
VCommon(x, y) == Undef
\* as VDiffer, for the first m elements; -1 if there are fewer
VDifferIn(x, y, m, rt, at) == Undef
\* the t solving lo[i-1] t[i-1] + di[i] t[i] + up[i+1] t[i+1] = r[i] for all i
VTri(lo, di, up, r) == Undef

x \oplus y == FAdd(x, y)
x \ominus y == FSub(x, y)
x \otimes y == FMul(x, y)
x \oslash y == FDiv(x, y)

Zero == F("0")
One == F("1")
Two == F("2")
Half == F("0.5")
=============================================================================
