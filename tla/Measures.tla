------------------------------ MODULE Measures ------------------------------
(***************************************************************************)
(* Kendall's tau, Spearman's rho, their derivatives and inverses, and tail *)
(* dependence, as functions of the parameter of a family.                  *)
(***************************************************************************)
EXTENDS Copulas

(* Debye functions D_n(x) = n / x^n * integral of t^n / (e^t - 1) over (0, x), for x > 0 *)
DebyeIntegrand(n, t) == FPow(t, n) // FExpm1(t)
DebyePos(n, x) ==
  LET top == FMin(x, Fl("80"))
      panels == IF top \prec 10 THEN 2 ELSE 5
  IN (n // FPow(x, n)) ** QuadN(LAMBDA t : DebyeIntegrand(n, t), Fl("0"), top, panels)
Debye(n, x) == IF FEq(x, 0) THEN Fl("1")
               ELSE IF 0 \prec x THEN DebyePos(n, x)
               ELSE DebyePos(n, FNeg(x)) ++ ((n // (n + 1)) ** FNeg(x))

TauOf(fam, t) ==
  CASE fam = "clayton" -> t // (t ++ 2)
    [] fam = "gumbel" -> 1 -- (1 // t)
    [] fam = "frank" -> IF FAbs(t) \prec Fl("0.02") THEN t ** ((1 // 9) -- (Sq(t) // 900))
                        ELSE (1 -- (4 // t)) ++ ((4 // t) ** Debye(1, t))
    [] fam \in {"gaussian", "student"} -> (2 // Pi) ** FAsin(t)
RhoOf(fam, t) ==
  CASE fam = "frank" -> IF FAbs(t) \prec Fl("0.02") THEN t ** ((1 // 6) -- (Sq(t) // 450))
                        ELSE 1 ++ ((12 // t) ** (Debye(2, t) -- Debye(1, t)))
    [] fam \in {"gaussian", "student"} -> (6 // Pi) ** FAsin(t ** Half)
DTauOf(fam, t) ==
  CASE fam = "clayton" -> 2 // Sq(t ++ 2)
    [] fam = "gumbel" -> 1 // Sq(t)
    [] fam = "frank" -> IF FAbs(t) \prec Fl("0.02") THEN (1 // 9) -- (Sq(t) // 300)
                        ELSE (4 // Sq(t)) ** ((1 ++ (t // FExpm1(t))) -- (2 ** Debye(1, t)))
    [] fam \in {"gaussian", "student"} -> (2 // Pi) // FSqrt(1 -- Sq(t))
DRhoOf(fam, t) ==
  CASE fam = "frank" -> IF FAbs(t) \prec Fl("0.02") THEN (1 // 6) -- (Sq(t) // 150)
                        ELSE (12 // Sq(t)) ** (((t // FExpm1(t)) -- (3 ** Debye(2, t))) ++ (2 ** Debye(1, t)))
    [] fam \in {"gaussian", "student"} -> (6 // Pi) // FSqrt(4 -- Sq(t))
\* parameter with the given tau
FrankITau(tau) ==
  IF FEq(tau, 0) THEN Fl("0") ELSE
  LET a == FAbs(tau)
      r == Loop(50, <<Fl("0"), 8 // (1 -- a)>>,      \* tau(t) > 1 - 4/t
             LAMBDA b, k : LET m == (b[1] ++ b[2]) ** Half IN IF TauOf("frank", m) \prec a THEN <<m, b[2]>> ELSE <<b[1], m>>)
  IN FSgn(tau) ** ((r[1] ++ r[2]) ** Half)
ITauOf(fam, tau) ==
  CASE fam = "clayton" -> (2 ** tau) // (1 -- tau)
    [] fam = "gumbel" -> IF tau \prec 0 THEN Fl("1") ELSE 1 // (1 -- tau)
    [] fam = "frank" -> FrankITau(tau)
    [] fam \in {"gaussian", "student"} -> FSin((tau ** Pi) ** Half)
IRhoOf(fam, rho) == 2 ** FSin((rho ** Pi) // 6)

\* tail dependence coefficients <<lower, upper>>; t is theta, a correlation, or <<df, correlation>>
TailOf(fam, t) ==
  CASE fam = "clayton" -> <<IF 0 \prec t THEN FPow(Fl("2"), (-1) // t) ELSE Fl("0"), Fl("0")>>
    [] fam = "gumbel" -> <<Fl("0"), 2 -- FPow(Fl("2"), 1 // t)>>
    [] fam = "frank" -> <<Fl("0"), Fl("0")>>
    [] fam = "gaussian" -> LET l == IF FEq(t, 1) THEN Fl("1") ELSE Fl("0") IN <<l, l>>
    [] fam = "student" ->
         LET v == t[1] r == t[2]
             l == IF FEq(r, 1) THEN Fl("1") ELSE IF FEq(r, -1) THEN Fl("0")
                  ELSE 2 ** TCdf(FNeg(FSqrt(((v ++ 1) ** (1 -- r)) // (1 ++ r))), v ++ 1)
         IN <<l, l>>
=============================================================================
