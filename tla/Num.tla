-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Arithmetic primitives.  A real number is represented by an IEEE double, *)
(* written as the pair <<hi, lo>> of the halves of its bit pattern; an     *)
(* unbounded integer by its decimal string.  The definitions below only    *)
(* give the arity and meaning: TLC evaluates these operators with the Java *)
(* class vp.NumOverrides (java/vp/NumOverrides.java), which contains       *)
(* arithmetic and nothing else.  Integers are accepted wherever a real is. *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Real2 == Int \X Int
LOCAL AReal == CHOOSE r \in Real2 : TRUE

FParse(s)   == AReal   \* the double written in decimal in s
Fl(s)       == AReal   \* the same, short
a ++ b     == AReal   \* infix forms of FAdd, FSub, FMul, FDiv, FLt, FLe
a -- b     == AReal
a ** b     == AReal
a // b     == AReal
a \prec b   == TRUE
a \preceq b == TRUE
FSgn(a)     == AReal   \* -1, 0 or 1
FAtan2(a, b) == AReal  \* angle of the point (b, a)
FDot(s, t)  == AReal   \* inner product of two sequences of reals
FShow(a)    == ""      \* decimal rendering, for messages
FInt(i)     == AReal   \* i as a real
FAdd(a, b)  == AReal   \* a + b
FSub(a, b)  == AReal   \* a - b
FMul(a, b)  == AReal   \* a * b
FDiv(a, b)  == AReal   \* a / b
FNeg(a)     == AReal   \* -a
FAbs(a)     == AReal   \* |a|
FExp(a)     == AReal   \* e^a
FExpm1(a)   == AReal   \* e^a - 1
FLn(a)      == AReal   \* ln a
FLn1p(a)    == AReal   \* ln(1 + a)
FPow(a, b)  == AReal   \* a^b
FSqrt(a)    == AReal   \* square root
FSin(a)     == AReal
FCos(a)     == AReal
FAtan(a)    == AReal
FAsin(a)    == AReal
FFloor(a)   == AReal   \* floor, as a real
FToInt(a)   == 0       \* floor, as an integer
FLt(a, b)   == TRUE    \* a < b
FLe(a, b)   == TRUE    \* a <= b
FEq(a, b)   == TRUE    \* a = b (numerically)
FIsNaN(a)   == TRUE
FIsFinite(a) == TRUE
FClose(a, b, rtol, atol) == TRUE   \* |a-b| <= atol + rtol |b|; NaN close to NaN
FMin(a, b)  == AReal
FMax(a, b)  == AReal
FSum(s)     == AReal   \* sum of a sequence of reals
FProd(s)    == AReal   \* product of a sequence of reals

ZAdd(a, b)  == ""      \* unbounded integers
ZSub(a, b)  == ""
ZMul(a, b)  == ""
ZDiv(a, b)  == ""      \* exact division
ZSign(a)    == 0
ZToF(a)     == AReal
=============================================================================
