-------------------------------- MODULE Dec --------------------------------
(* Real arithmetic for specifications of a numerical library.  A real is a  *)
(* decimal string such as "-0.0625" (what the harness logs is the shortest  *)
(* exact rendering of the implementation's double), or an integer, or one   *)
(* of "inf", "-inf", "nan".  TLC's integers are 32 bit, so these operators  *)
(* are evaluated by the Java override spec/java/Dec.java with 34 decimal    *)
(* digits - far more than the doubles of the code under test carry.  The    *)
(* bodies below are never evaluated; the comments are their meaning.        *)
LOCAL Undef == CHOOSE x : x \notin {}
DAdd(a, b) == Undef          \* a + b
DSub(a, b) == Undef          \* a - b
DMul(a, b) == Undef          \* a * b
DDiv(a, b) == Undef          \* a / b
DNeg(a) == Undef             \* -a
DAbs(a) == Undef             \* |a|
DLt(a, b) == Undef           \* a < b
DLe(a, b) == Undef           \* a <= b
DEq(a, b) == Undef           \* a = b as reals
DFinite(a) == Undef          \* a is a real (not inf, -inf, nan)
DNan(a) == Undef             \* a is "nan"
DSqrt(a) == Undef            \* square root
DSin(a) == Undef             \* sine (radians)
DCos(a) == Undef             \* cosine (radians)
DSum(s) == Undef             \* sum of a sequence of reals
DDot(s, t) == Undef          \* inner product of two sequences
DClose(a, b, tol) == Undef   \* |a - b| <= tol * max(1, |a|, |b|)
DCloseSeq(s, t, tol) == Undef \* same length and DClose at every index
DSame(a, b) == Undef         \* a = b as reals, or both nan
DSameSeq(s, t) == Undef      \* same length and DSame at every index
DSameMat(s, t) == Undef      \* same length and DSameSeq at every index
DInt(a) == Undef             \* the integer a as a TLA+ integer
DIsInt(a) == Undef           \* a is an integer
\* complex numbers <<re, im>>
CAdd(a, b) == Undef
CSub(a, b) == Undef
CMul(a, b) == Undef
CDiv(a, b) == Undef
CConj(a) == Undef
CSum(s) == Undef
=============================================================================
