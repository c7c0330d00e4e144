------------------------------ MODULE Special ------------------------------
(***************************************************************************)
(* Debye functions, real and complex dilogarithm, Clausen function,        *)
(* polylogarithm, logarithms of exponentials.  A complex number is a pair  *)
(* <<real, imaginary>>.                                                    *)
(***************************************************************************)
EXTENDS Measures

Zeta2 == Fl("1.6449340668482264")
C0 == <<Fl("0"), Fl("0")>>
CAdd(a, b) == <<a[1] ++ b[1], a[2] ++ b[2]>>
CSub(a, b) == <<a[1] -- b[1], a[2] -- b[2]>>
CMul(a, b) == <<(a[1] ** b[1]) -- (a[2] ** b[2]), (a[1] ** b[2]) ++ (a[2] ** b[1])>>
CScale(k, a) == <<k ** a[1], k ** a[2]>>
CAbs(a) == LET m == FMax(FAbs(a[1]), FAbs(a[2])) n == FMin(FAbs(a[1]), FAbs(a[2])) IN IF FEq(m, 0) THEN m ELSE m ** FSqrt(1 ++ Sq(n // m))
CInv(a) == LET m == CAbs(a) IN <<(a[1] // m) // m, FNeg((a[2] // m) // m)>>
\* principal logarithm; close to one through the modulus of the distance
CLog(a) == <<IF FAbs(a[1] -- 1) ++ FAbs(a[2]) \prec Half THEN Half ** FLn1p((2 ** (a[1] -- 1)) ++ (Sq(a[1] -- 1) ++ Sq(a[2]))) ELSE FLn(CAbs(a)), FAtan2(a[2], a[1])>>
COneMinus(a) == <<1 -- a[1], FNeg(a[2])>>
\* log(1 - a), also for the smallest a
CLog1m(a) == IF CAbs(a) \prec Half THEN <<Half ** FLn1p((Sq(a[1]) ++ Sq(a[2])) -- (2 ** a[1])), FAtan2(FNeg(a[2]), 1 -- a[1])>> ELSE CLog(COneMinus(a))
Polar(r, t) == <<r ** FCos(t), r ** FSin(t)>>

(* dilogarithm *)
Li2Coef == <<Fl("0.027777777777777776"), Fl("-0.0002777777777777778"), Fl("4.724111866969009e-06"), Fl("-9.185773074661964e-08"), Fl("1.8978869988971e-09"),
             Fl("-4.0647616451442254e-11"), Fl("8.921691020456453e-13"), Fl("-1.9939295860721074e-14"), Fl("4.518980029619918e-16"), Fl("-1.0356517612181247e-17"), Fl("2.395218621026187e-19")>>
\* Li2(z) for u = -ln(1 - z): the integral of u / (e^u - 1)
Li2Series(z) ==
  LET u == CScale(-1, CLog1m(z)) s == CMul(u, u)
      h == Loop(Len(Li2Coef), C0, LAMBDA acc, k : CAdd(CMul(acc, s), <<Li2Coef[Len(Li2Coef) + 1 - k], Fl("0")>>))
  IN CAdd(CSub(u, CScale(Fl("0.25"), s)), CMul(CMul(h, s), u))
Li2Half(z) == IF z[1] \preceq Half THEN Li2Series(z)
              ELSE IF FEq(z[1], 1) /\ FEq(z[2], 0) THEN <<Zeta2, Fl("0")>>
              ELSE CSub(CSub(<<Zeta2, Fl("0")>>, CMul(CLog(z), CLog(COneMinus(z)))), Li2Series(COneMinus(z)))
\* the complex dilogarithm, off the cut or, on it, from below
CLi2(z) ==
  IF FEq(z[2], 0) /\ 1 \prec z[1] THEN <<(((Zeta2 ** 2) -- (Half ** Sq(FLn(z[1])))) -- Li2Half(<<1 // z[1], Fl("0")>>)[1]), FNeg(Pi ** FLn(z[1]))>>
  ELSE IF CAbs(z) \preceq 1 THEN Li2Half(z)
  ELSE LET l == CLog(CScale(-1, z)) IN CSub(CScale(-1, Li2Half(CInv(z))), CAdd(<<Zeta2, Fl("0")>>, CScale(Half, CMul(l, l))))
Li2(x) == CLi2(<<x ++ Fl("0"), Fl("0")>>)[1]

(* Clausen: - int_0^x ln |2 sin(t / 2)| dt *)
TwoPi == 2 ** Pi
\* 2 pi in two parts, for the reduction of large arguments
Reduce(x) == LET n == FFloor((x // TwoPi) ++ Half) IN (x -- (n ** Fl("6.28125"))) -- (n ** Fl("0.0019353071795864769253"))
SincLog(t) == IF FEq(t, 0) THEN Fl("0") ELSE FLn((2 ** FSin(t ** Half)) // t)
ClausenPos(x) == IF FEq(x, 0) THEN Fl("0") ELSE (x ** (1 -- FLn(x))) -- Quad(SincLog, Fl("0"), x)
Clausen(x) == LET y == Reduce(x) IN FSgn(y) ** ClausenPos(FAbs(y))

(* polylogarithm of order -n: sum_k k! S2(n + 1, k + 1) w^(k + 1), w = z / (1 - z) *)
CDiv(a, b) == CMul(a, CInv(b))
StirlingCoef(n) == NegPolylogCoef(n)
CHorner(c, z) == Loop(Len(c), C0, LAMBDA acc, k : CAdd(CMul(acc, z), <<c[Len(c) + 1 - k], Fl("0")>>))
NegLi(n, z) == LET w == CDiv(z, COneMinus(z)) IN CMul(w, CHorner(StirlingCoef(n), w))
NegLiSize(n, z) == LET w == CAbs(CDiv(z, COneMinus(z))) IN w ** Horner(StirlingCoef(n), w)
\* Eulerian numbers A(n, 0), A(n, 1), ..
EulerRow(n) == IF n = 0 THEN <<Fl("1")>> ELSE Loop(n - 1, <<Fl("1")>>, LAMBDA a, m :
                 [k \in 1..(m + 1) |-> (IF k <= m THEN k ** a[k] ELSE Fl("0")) ++ (IF k > 1 THEN ((m + 2) - k) ** a[k - 1] ELSE Fl("0"))])
CPow(a, n) == Loop(n, <<Fl("1"), Fl("0")>>, LAMBDA acc, k : CMul(acc, a))
EulerLi(n, z) == CMul(CMul(z, CHorner(EulerRow(n), z)), CInv(CPow(COneMinus(z), n + 1)))
EulerLiSize(n, z) == (CAbs(z) ** Horner(EulerRow(n), CAbs(z))) // FPow(CAbs(COneMinus(z)), n + 1)
PolyLog(s, z) == CASE s = 2 -> CLi2(z) [] s = 1 -> CScale(-1, CLog1m(z)) [] OTHER -> NegLi(-s, z)

(* logarithms of exponentials *)
Log1mExp(x) == IF Fl("0.6931471805599453") \prec x THEN FLn1p(FNeg(FExp(FNeg(x)))) ELSE FLn(FNeg(FExpm1(FNeg(x))))
Log1pExp(x) == IF 0 \prec x THEN x ++ FLn1p(FExp(FNeg(x))) ELSE FLn1p(FExp(x))
LogSum(s) == LET m == MaxSeq(s) IN IF FEq(m, NegInf) THEN m ELSE m ++ FLn(SumSeq(s, LAMBDA x : FExp(x -- m)))
=============================================================================
