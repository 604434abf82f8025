----------------------------- MODULE RealArith -----------------------------
(***************************************************************************)
(* Arithmetic on reals, given IEEE-double meaning by ov/RealArith.java.    *)
(* A real is written as an integer, or as a decimal in a string: "0.35".   *)
(* Reals never appear in a state: states hold integers and such strings.   *)
(* Every operator is total (a value that is no number counts as NaN), so   *)
(* that a conformance verdict is always reached.                           *)
(***************************************************************************)
LOCAL Any == CHOOSE x \in {} : TRUE

a + b == Any       \* integers stay integers under + - *
a - b == Any
a * b == Any
a / b == Any       \* real division
a ^ b == Any
a < b == Any
a > b == Any
a <= b == Any
a >= b == Any
-. a == Any
a .. b == Any
a % b == Any

Exp(a) == Any
Ln(a) == Any
Log10(a) == Any
Sqrt(a) == Any
Sin(a) == Any
Cos(a) == Any
Tan(a) == Any
Tanh(a) == Any
Cosh(a) == Any
Radians(a) == Any
AbsR(a) == Any
MinR(a, b) == Any
MaxR(a, b) == Any
Clip(x, lo, hi) == Any
RealV(a) == Any
FloorI(a) == Any
IntOf(v) == Any
NaN == Any
PiR == Any

Eq(a, b) == Any            \* equality of numbers (NaN equals NaN)
Near(a, b, tol) == Any     \* |a-b| <= tol max(1,|b|)
Same(a, b) == Any          \* total equality of any two values
IsNaN(a) == Any
IsNum(a) == Any
IsFinite(a) == Any
IsNone(a) == Any           \* a value that was not given ("None")
IsStr(a) == Any
IsSeq(a) == Any

Vec(f) == Any              \* sequence, evaluated now
SumR(f) == Any
DotR(f, g) == Any
Interp(x, xs, ys) == Any   \* piecewise linear, end values held
SolveR(A, b) == Any        \* solution of A x = b
ArgMin(f) == Any           \* first index of the smallest value
SelectIdx(f) == Any        \* indices at which a sequence of booleans holds
Uniq(f) == Any              \* sequence without repetitions
Flat(f) == Any              \* concatenation of a sequence of sequences
At(f, k) == Any            \* f[k], or "missing"
LenR(f) == Any             \* length, -1 if not a sequence
Mentions(text, word) == Any
MentionsNum(text, x) == Any
HasKey(rec, k) == Any
Get(rec, k, dflt) == Any
With(rec, k, v) == Any
EmptyRec == Any
ToRec(f) == Any            \* a function from strings as a record

Hash(seed, a, b, n) == Any \* pseudo-random integer in 0..n-1, a function of its arguments
Dec(k, places) == Any      \* the decimal string k / 10^places
DecAdd(a, b) == Any        \* exact sum of decimal strings
Str(v) == Any

Env(k, dflt) == Any
EnvInt(k, dflt) == Any
EnvSeq(k) == Any           \* comma-separated value as a sequence of strings
LoadJson(file) == Any
LoadNd(file) == Any        \* newline-delimited JSON as a sequence
Emit(file, v) == Any       \* append a JSON line; TRUE
=============================================================================
