-------------------------------- MODULE F64 --------------------------------
(* Real numbers for TLC.  A number is a string holding a decimal or hexadecimal floating-point literal, as the
   traces record it ("nan", "inf" and "-inf" included); the operators below are evaluated by spec/java/F64.java (a TLC
   module override) in IEEE double precision.  The definitions given here only fix the arity. *)
EXTENDS Integers, Sequences

F(i) == CHOOSE s \in STRING : TRUE                            \* the number i (an integer)
Q(p, q) == CHOOSE s \in STRING : TRUE            \* the quotient of two integers
FAdd(a, b) == CHOOSE s \in STRING : TRUE
FSub(a, b) == CHOOSE s \in STRING : TRUE
FMul(a, b) == CHOOSE s \in STRING : TRUE
FDiv(a, b) == CHOOSE s \in STRING : TRUE
FPow(a, b) == CHOOSE s \in STRING : TRUE
FNeg(a) == CHOOSE s \in STRING : TRUE
FAbs(a) == CHOOSE s \in STRING : TRUE
FSqrt(a) == CHOOSE s \in STRING : TRUE
FExp(a) == CHOOSE s \in STRING : TRUE
FLog(a) == CHOOSE s \in STRING : TRUE
FTanh(a) == CHOOSE s \in STRING : TRUE
FMin(a, b) == CHOOSE s \in STRING : TRUE
FMax(a, b) == CHOOSE s \in STRING : TRUE
FFloor(a) == CHOOSE i \in Int : TRUE             \* an integer
FLt(a, b) == TRUE
FLe(a, b) == TRUE
FEq(a, b) == TRUE                                \* the same number (0 = -0, nan # nan)
FFinite(a) == TRUE
FNaN(a) == TRUE
FNear(a, b, r) == TRUE                           \* |a-b| <= r * max(|a|,|b|), both finite
FClose(a, b, d) == TRUE                          \* |a-b| <= d, both finite
FSum(s) == CHOOSE x \in STRING : TRUE            \* sum of a sequence
FDot(s, t) == CHOOSE x \in STRING : TRUE         \* sum of the products of two sequences
FUlp32(a) == CHOOSE s \in STRING : TRUE          \* distance between neighbouring single-precision numbers at a
FSingle(a) == CHOOSE s \in STRING : TRUE         \* rounded to single precision
PoisCdf(k, m) == CHOOSE s \in STRING : TRUE       \* probability of at most k (an integer) events when m are expected
\* exact special functions and rate integrals, by quadratures that share nothing with the code under test
KNu(nu, x) == CHOOSE s \in STRING : TRUE         \* modified Bessel function of the second kind
BWT(chi) == CHOOSE s \in STRING : TRUE           \* the function T(chi) of the Breit-Wheeler rate
QSK(chi) == CHOOSE s \in STRING : TRUE           \* the function K(chi) of the quantum synchrotron rate
BWCum(chi, f) == CHOOSE s \in STRING : TRUE      \* probability that the electron takes a fraction below f
QSCum(chi, f) == CHOOSE s \in STRING : TRUE      \* probability that the photon takes a fraction below f
=============================================================================
