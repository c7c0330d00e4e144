------------------------------- MODULE Normal -------------------------------
(***************************************************************************)
(* The normal and Student distributions and their quantiles.               *)
(***************************************************************************)
EXTENDS Reals

InvSqrt2Pi == Fl("0.3989422804014327")
NPdf(x) == InvSqrt2Pi ** FExp(FNeg(Sq(x)) ** Half)
NLogPdf(x) == Fl("-0.9189385332046727") -- (Sq(x) ** Half)

\* upper tail by the continued fraction of the Mills ratio, x >= 3
MillsTail(x) == NPdf(x) // Loop(70, x, LAMBDA acc, k : x ++ ((71 - k) // acc))
\* Phi(x) - 1/2 by its power series, |x| < 3
NSeries(x) ==
  LET r == Loop(45, <<x, x>>, LAMBDA a, k : LET t == (a[1] ** Sq(x)) // (2 * k + 1) IN <<t, a[2] ++ t>>)
  IN NPdf(x) ** r[2]

NCdf(x) ==
  IF FIsNaN(x) THEN NaN
  ELSE IF Fl("38") \preceq x THEN Fl("1") ELSE IF x \preceq Fl("-38") THEN Fl("0")
  ELSE IF 3 \preceq x THEN 1 -- MillsTail(x)
  ELSE IF x \preceq -3 THEN MillsTail(FNeg(x))
  ELSE Half ++ NSeries(x)

\* lower half by a rational start and Newton steps, upper half by symmetry
NQLower(p) ==
  LET t == FSqrt((-2) ** FLn(p))
      x0 == FNeg(t -- (Horner(<<Fl("2.515517"), Fl("0.802853"), Fl("0.010328")>>, t)
                         // Horner(<<1, Fl("1.432788"), Fl("0.189269"), Fl("0.001308")>>, t)))
      Step(x, k) == x -- ((NCdf(x) -- p) // NPdf(x))
  IN Loop(3, x0, Step)
NQuantile(p) ==
  IF p \preceq 0 THEN (IF FEq(p, 0) THEN NegInf ELSE NaN)
  ELSE IF 1 \preceq p THEN (IF FEq(p, 1) THEN Inf ELSE NaN)
  ELSE IF p \preceq Half THEN NQLower(p)
  ELSE FNeg(NQLower(1 -- p))

(* Student: with x = sqrt(v) tan(a) the density in a is cos(a)^(v-1) / B(1/2, v/2) *)
LnBetaHalf(v) == (LnGamma(Half) ++ LnGamma(v ** Half)) -- LnGamma((v ++ 1) ** Half)
TLogPdf(x, v) ==
  ((LnGamma((v ++ 1) ** Half) -- LnGamma(v ** Half)) -- (FLn(v ** Pi) ** Half))
    -- (((v ++ 1) ** Half) ** FLn1p(Sq(x) // v))
TPdf(x, v) == FExp(TLogPdf(x, v))
\* integral of cos^(v-1) from 0 to a, in four panels
CosInt(a, v) == QuadN(LAMBDA s : FPow(FCos(s), v -- 1), Fl("0"), a, 2)
\* the tails, with the angle f = pi/2 - |a| and z = f w^2: accurate relative to the tail itself
\* (below one degree of freedom z = f w^(2/v), which leaves w times a smooth function)
TailInt(f, v) ==
  IF v \prec 1 THEN QuadN(LAMBDA w : ((2 // v) ** (f ** FPow(w, (2 // v) -- 1))) ** FPow(FSin(f ** FPow(w, 2 // v)), v -- 1), Fl("0"), Fl("1"), 4)
  ELSE QuadN(LAMBDA w : (2 ** (f ** w)) ** FPow(FSin(f ** Sq(w)), v -- 1), Fl("0"), Fl("1"), IF v \preceq 40 THEN 2 ELSE IF v \preceq 1000 THEN 6 ELSE 20)
TTail(x, v) == TailInt(FAtan(FSqrt(v) // FAbs(x)), v) // FExp(LnBetaHalf(v))
TCdf(x, v) ==
  IF ~FIsFinite(x) THEN (IF 0 \prec x THEN Fl("1") ELSE Fl("0"))
  ELSE IF x \preceq -3 THEN TTail(x, v) ELSE IF 3 \preceq x THEN 1 -- TTail(x, v)
  ELSE Half ++ (FSgn(x) ** (CosInt(FAtan(FAbs(x) // FSqrt(v)), v) // FExp(LnBetaHalf(v))))
\* quantile, v >= 1: Newton from the centre is monotone because the density in a decreases
TQUpper(p, v) ==
  LET b == FExp(LnBetaHalf(v))
      target == (p -- Half) ** b
      a == Loop(14, Fl("0"), LAMBDA s, k :
              s ++ ((target -- QuadN(LAMBDA z : FPow(FCos(z), v -- 1), Fl("0"), s, 2)) // FPow(FCos(s), v -- 1)))
  IN FSqrt(v) ** (FSin(a) // FCos(a))
\* far below the centre: Newton for the logarithm of the angle, which is nearly linear in that of the tail
TQTail(p, v) ==
  LET lt == FLn(p) ++ LnBetaHalf(v)
      Step(l, k) == LET f == FExp(l) int == TailInt(f, v)
                    IN FMin(l -- (((FLn(int) -- lt) ** int) // (f ** FPow(FSin(f), v -- 1))), Fl("0.45"))
      f == FExp(Loop(8, IF v \preceq 40 THEN FMin((lt ++ FLn(v)) // v, Fl("0.4")) ELSE FLn(FAtan(FSqrt(v) // FAbs(NQuantile(p)))), Step))
  IN FNeg(FSqrt(v) ** (FCos(f) // FSin(f)))
\* below one degree of freedom the density in a increases, and the tail method serves everywhere
TQuantile(p, v) ==
  IF p \prec 0 \/ 1 \prec p THEN NaN ELSE IF FEq(p, 0) THEN NegInf ELSE IF FEq(p, 1) THEN Inf
  ELSE IF FEq(p, Half) THEN Fl("0") ELSE IF p \prec Fl("0.005") \/ (v \prec 1 /\ p \prec Half) THEN TQTail(p, v) ELSE IF Fl("0.995") \prec p \/ v \prec 1 THEN FNeg(TQTail(1 -- p, v))
  ELSE IF p \prec Half THEN FNeg(TQUpper(1 -- p, v)) ELSE TQUpper(p, v)
=============================================================================
