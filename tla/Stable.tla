------------------------------- MODULE Stable -------------------------------
(***************************************************************************)
(* Stable laws in the continuous parameterization, by Zolotarev's integral *)
(* of g exp(-g) (density) or exp(-g) (distribution function) over the      *)
(* angle, g being monotone; multivariate Student laws.                     *)
(***************************************************************************)
EXTENDS Copulas

EagerSeq(s) == FoldLeft(LAMBDA acc, x : Append(acc, x), <<>>, s)
Tan(a) == FSin(a) // FCos(a)
Zeta(al, be) == IF FEq(al, 2) THEN Fl("0") ELSE FNeg(be ** Tan((Pi ** al) ** Half))
Theta0(al, be) == IF FEq(al, 2) THEN Fl("0") ELSE FAtan(be ** Tan((Pi ** al) ** Half)) // al
Sharp(a) == IF FAbs(a) \prec Fl("1e-12") THEN Fl("0") ELSE a
\* log of g at angle phi in (0, W), for a point at distance xm above zeta
LogG(al, t0, xm, phi) ==
  (((FLn(FCos(al ** t0)) ++ FLn(FSin((Half ** Pi) ++ (t0 -- phi)))) ++ (al ** (FLn(xm) -- FLn(FSin(al ** phi))))) // (al -- 1))
    ++ FLn(FSin(Sharp((Half ** Pi) -- t0) ++ ((1 -- al) ** phi)))
\* index one, skewness > 0, angle phi in (0, pi) from the left end or from the right end
LogG1(be, x, phi, left) ==
  LET h == (Half ** Pi) ++ (IF left THEN be ** (phi -- (Half ** Pi)) ELSE be ** ((Half ** Pi) -- phi))
      t == (IF left THEN -1 ELSE 1) ** (FCos(phi) // FSin(phi))
  IN (((FNeg(Pi ** x) // (2 ** be)) ++ FLn((2 ** h) // Pi)) -- FLn(FSin(phi))) ++ ((h ** t) // be)
\* integral of Q over (0, w), panels shrinking towards the point where lg crosses zero
Graded(Q(_), lg(_), w, rising) ==
  LET top == Loop(52, <<Fl("0"), w>>, LAMBDA s, k :
               LET m == (s[1] ++ s[2]) ** Half v == lg(m)
                   above == IF FIsNaN(v) THEN FALSE ELSE 0 \prec v
               IN IF above = rising THEN <<s[1], m>> ELSE <<m, s[2]>>)
      p == (top[1] ++ top[2]) ** Half
      Left(k) == p ** FPow(Half, k) Right(k) == (w -- p) ** FPow(Half, k)
      N == 36
      S(v) == IF FIsNaN(v) THEN Fl("0") ELSE v
      R(v) == S(Q(v))
  IN FSum([k \in 1..(2 * N + 2) |->
        IF k <= 5 THEN Quad(R, p -- Left(k - 1), p -- Left(k)) ELSE IF k <= N THEN Quad8(R, p -- Left(k - 1), p -- Left(k)) ELSE IF k = N + 1 THEN Quad8(R, p -- Left(N), p)
        ELSE IF k <= N + 6 THEN Quad(R, p ++ Right(k - N - 1), p ++ Right(k - N - 2)) ELSE IF k <= 2 * N + 1 THEN Quad8(R, p ++ Right(k - N - 1), p ++ Right(k - N - 2)) ELSE Quad8(R, p, p ++ Right(N))])
XExp(l) == IF Fl("7") \prec l THEN Fl("0") ELSE FExp(l -- FExp(l))
CExp(l) == IF Fl("7") \prec l THEN Fl("0") ELSE FExp(FNeg(FExp(l)))

\* exactly one of the laws with a closed form, or the point where the integral degenerates
AtZeta(al, be) == (FExp(LnGamma(1 ++ (1 // al))) ** FCos(Theta0(al, be))) // (Pi ** FPow(1 ++ Sq(Zeta(al, be)), 1 // (2 ** al)))
Above(al, be, x) ==     \* density at a point above zeta
  LET t0 == Theta0(al, be) w == (Half ** Pi) ++ t0 xm == x -- Zeta(al, be)
      L(phi) == LogG(al, t0, xm, phi)
  IN IF w \prec Fl("1e-12") THEN Fl("0") ELSE (al // ((Pi ** FAbs(al -- 1)) ** xm)) ** Graded(LAMBDA phi : XExp(L(phi)), L, w, al \prec 1)
CdfAbove(al, be, x) ==
  LET t0 == Theta0(al, be) w == (Half ** Pi) ++ t0 xm == x -- Zeta(al, be)
      L(phi) == LogG(al, t0, xm, phi)
      i == IF w \prec Fl("1e-12") THEN Fl("0") ELSE Graded(LAMBDA phi : CExp(L(phi)), L, w, al \prec 1) // Pi
  IN IF al \prec 1 THEN (Half -- (t0 // Pi)) ++ i ELSE 1 -- i
IntOne(be, x, E(_)) == LET left == x \prec 0 L(phi) == LogG1(be, x, phi, left) IN Graded(LAMBDA phi : E(L(phi)), L, Pi, left)
One(be, x) == (1 // (2 ** be)) ** IntOne(be, x, XExp)
CdfOne(be, x) == IntOne(be, x, CExp) // Pi
Cauchy(x) == 1 // (Pi ** (1 ++ Sq(x)))
StableDens(al, be, x) ==
  LET z == Zeta(al, be) IN
  IF FEq(al, 2) THEN FExp(FNeg(Sq(x) // 4)) // (2 ** FSqrt(Pi))
  ELSE IF FEq(al, 1) THEN (IF FEq(be, 0) THEN Cauchy(x) ELSE IF 0 \prec be THEN One(be, x) ELSE One(FNeg(be), FNeg(x)))
  ELSE IF FAbs(x -- z) \preceq (Fl("1e-6") ** (1 ++ FAbs(z))) THEN AtZeta(al, be)
  ELSE IF z \prec x THEN Above(al, be, x) ELSE Above(al, FNeg(be), FNeg(x))
StableCdf(al, be, x) ==
  LET z == Zeta(al, be) IN
  IF FEq(al, 2) THEN NCdf(x // FSqrt(2))
  ELSE IF FEq(al, 1) THEN (IF FEq(be, 0) THEN Half ++ (FAtan(x) // Pi) ELSE IF 0 \prec be THEN CdfOne(be, x) ELSE 1 -- CdfOne(FNeg(be), FNeg(x)))
  ELSE IF FAbs(x -- z) \preceq (Fl("1e-6") ** (1 ++ FAbs(z))) THEN Half -- (Theta0(al, be) // Pi)
  ELSE IF z \prec x THEN CdfAbove(al, be, x) ELSE 1 -- CdfAbove(al, FNeg(be), FNeg(x))
\* density of its tail
Pareto(al, be, x) == (al ** ((1 ++ (be ** FSgn(x))) ** ((FExp(LnGamma(al)) // Pi) ** FSin((al ** Pi) ** Half)))) // FPow(FAbs(x), al ++ 1)
\* the mode, by golden section: it lies within 0.7 of the origin, against the skewness
Mode(al, be) ==
  LET r == Fl("0.6180339887498949")
      V(x) == StableDens(al, be, x)
      s == Loop(22, <<FMin(Fl("0"), Fl("-0.7") ** FSgn(be)), FMax(Fl("0"), Fl("-0.7") ** FSgn(be))>>, LAMBDA iv, k :
             LET a == iv[2] -- (r ** (iv[2] -- iv[1])) b == iv[1] ++ (r ** (iv[2] -- iv[1]))
             IN IF V(a) \prec V(b) THEN <<a, iv[2]>> ELSE <<iv[1], b>>)
  IN IF FEq(be ** al, 0) \/ FEq(al, 2) THEN Fl("0") ELSE (s[1] ++ s[2]) ** Half
\* location and scale of the continuous parameterization
Place(al, be, ga, de, pm) ==
  CASE pm = 0 -> <<de, ga>>
    [] pm = 1 -> <<de ++ (IF FEq(al, 1) THEN ((be ** ga) ** (2 ** FLn(ga))) // Pi ELSE FNeg(ga ** Zeta(al, be))), ga>>
    [] pm = 2 -> LET g == ga ** FPow(al, FNeg(1 // al)) IN <<de -- (g ** Mode(al, be)), g>>

(* multivariate Student with a covariance (scale) matrix S, as a function of the deviation from its centre *)
MvnDev(x, S) == LET L == Chol(S) IN FNeg(Half ** (((Len(x) ** FLn(2 ** Pi)) ++ LnDet(L)) ++ QuadForm(L, x)))
\* P(component <= t) = E Phi(a S - b), S^2 chi-square / v: central for b = 0
\* log density of S
ChiLog(s, v) == ((FLn(2) ++ ((v ** Half) ** FLn(v ** Half))) -- LnGamma(v ** Half)) ++ (((v -- 1) ** FLn(s)) -- ((v ** Half) ** Sq(s)))
NonCentral(a, b, v) ==
  LET top == 1 ++ (12 // FSqrt(v)) low == FMax(Fl("0"), 1 -- (12 // FSqrt(v)))
  IN QuadN(LAMBDA s : FExp(ChiLog(s, v)) ** NCdf((a ** s) -- b), low, top, 8)
=============================================================================
