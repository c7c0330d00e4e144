------------------------------- MODULE MC_C23 -------------------------------
(***************************************************************************)
(* Arguments climb a grid; every function of Special.tla agrees with its   *)
(* defining integral or series, with the functional equations that tie the *)
(* branches together, and with the functions it is related to.             *)
(***************************************************************************)
EXTENDS Special, TLC, Json
CONSTANTS Fine
VARIABLES fn, k

Reals1 == IF Fine THEN <<"0", "1e-9", "0.0001", "0.01", "0.1", "0.2", "0.25", "0.3", "0.5", "0.501", "0.7", "0.9", "0.97", "0.999", "1", "1.005", "1.01", "1.02", "1.5", "2", "2.1", "4", "4.1", "6", "10", "20", "35.3", "35.4", "60", "300", "708", "709", "5000">>
          ELSE <<"0", "0.0001", "0.1", "0.25", "0.3", "0.5", "0.7", "0.97", "1", "1.005", "1.02", "2", "2.5", "4", "4.1", "10", "35.3", "36", "300", "709">>
Moduli == IF Fine THEN <<"0.01", "0.2", "0.26", "0.5", "0.74", "0.97", "0.985", "0.999", "1", "1.001", "1.02", "1.4", "3", "50">> ELSE <<"0.1", "0.26", "0.74", "0.985", "1", "1.02", "3", "50">>
Angles == <<"-3.14159", "-2.5", "-1.2", "-0.4", "-0.05", "0.01", "0.3", "1.0471975511965976", "1.6", "2.2", "3.1">>
Size(f) == IF f = "complex" THEN Len(Moduli) * Len(Angles) ELSE Len(Reals1)
x == Fl(Reals1[k])
z == Polar(Fl(Moduli[((k - 1) \div Len(Angles)) + 1]), Fl(Angles[((k - 1) % Len(Angles)) + 1]))
Init == fn \in {"real", "complex"} /\ k = 1
Climb == k < Size(fn) /\ k' = k + 1 /\ fn' = fn
Spec == Init /\ [][Climb]_<<fn, k>>

R == fn = "real"
C == fn = "complex"
Near(a, b, tol) == FClose(a, b, tol, tol)
CNear(a, b, tol) == Near(a[1], b[1], tol) /\ Near(a[2], b[2], tol)
\* Debye: series for small, exponential series for large arguments, and the limit
DebyeSmall == (R /\ x \preceq 1 /\ 0 \prec x) => Near(Debye(1, x), ((((1 -- (x // 4)) ++ (Sq(x) // 36)) -- (Sq(Sq(x)) // 3600)) ++ (Sq(Sq(x)) ** (Sq(x) // 211680))), Fl("2e-7"))
DebyeLarge == (R /\ 20 \preceq x) => /\ Near(Debye(1, x), Zeta2 // x, Fl("1e-7")) /\ Near(Debye(2, x), Fl("4.808227612638377") // Sq(x), Fl("1e-5"))
DebyeByDilog == (R /\ Fl("1e-5") \prec x /\ x \preceq 30) => Near(Debye(1, x), ((Zeta2 -- Li2(FExp(FNeg(x)))) // x) ++ FLn(FNeg(FExpm1(FNeg(x)))), Fl("1e-8"))
DebyeFalls == (R /\ k > 1) => Debye(1, x) \prec Debye(1, Fl(Reals1[k - 1])) /\ Debye(2, x) \prec Debye(2, Fl(Reals1[k - 1]))
\* dilogarithm of a real number: its integral between neighbours on the same side of one, and the functional equations
Integrand(s) == FNeg(FLn(FAbs(1 -- s)) // s)
Prev == Fl(Reals1[k - 1])
DilogIntegral == (R /\ k > 2 /\ x \preceq 60 /\ (x \prec 1 \/ 1 \prec Prev)) => Near(Li2(x) -- Li2(Prev), QuadN(Integrand, Prev, x, 8), Fl("1e-6"))
DilogNegative == (R /\ k > 1 /\ x \preceq 60) => Near(Li2(FNeg(x)), FNeg(QuadN(LAMBDA s : FLn1p(s) // s, Fl("0"), x, 8)), Fl("1e-10"))
DilogSquare == (R /\ x \preceq 300) => Near(Li2(x) ++ Li2(FNeg(x)), Half ** Li2(Sq(x)), Fl("1e-11"))
\* complex
ByQuadrature == C /\ CAbs(z) \preceq 4 /\ (CAbs(z) \prec Fl("0.99") \/ Fl("0.3") \prec FAbs(FAtan2(z[2], z[1])))
LineIntegral == ByQuadrature => LET G(j, t) == FNeg(CLog(COneMinus(CScale(t, z)))[j] // t) IN
   CNear(CLi2(z), <<QuadN(LAMBDA t : G(1, t), Fl("0"), Fl("1"), 12), QuadN(LAMBDA t : G(2, t), Fl("0"), Fl("1"), 12)>>, Fl("1e-8"))
Conjugate == C => CNear(CLi2(<<z[1], FNeg(z[2])>>), <<CLi2(z)[1], FNeg(CLi2(z)[2])>>, Fl("1e-12"))
Squares == (C /\ FAbs(FAtan2(z[2], z[1])) \prec Fl("1.5")) => CNear(CAdd(CLi2(z), CLi2(CScale(-1, z))), CScale(Half, CLi2(CMul(z, z))), Fl("1e-11"))
\* Clausen: imaginary part of the dilogarithm on the circle, odd, periodic, duplication
ClausenCircle == C => LET t == Fl(Angles[((k - 1) % Len(Angles)) + 1]) IN
   /\ Near(Clausen(t), CLi2(Polar(Fl("1"), t))[2], Fl("1e-11")) /\ Near(Clausen(FNeg(t)), FNeg(Clausen(t)), Fl("1e-12"))
   /\ Near(Clausen(t ++ TwoPi), Clausen(t), Fl("1e-11")) /\ Near(Clausen(2 ** t), 2 ** (Clausen(t) -- Clausen(Pi -- t)), Fl("1e-11"))
\* polylogarithm: both sums agree; inside the unit disk it is its series; each order is z d/dz of the next
PolySums == (C /\ Fl("0.05") \prec CAbs(COneMinus(z))) => \A n \in 0..6 : LET s == NegLiSize(n, z) ++ EulerLiSize(n, z) IN
   /\ FClose(NegLi(n, z)[1], EulerLi(n, z)[1], 0, Fl("1e-13") ** (1 ++ s)) /\ FClose(NegLi(n, z)[2], EulerLi(n, z)[2], 0, Fl("1e-13") ** (1 ++ s))
PolySeries == (R /\ x \preceq Half) => \A n \in -2..5 : Near(PolyLog(-n, <<x, Fl("0")>>)[1],
   Loop(140, Fl("0"), LAMBDA acc, m : acc ++ (FPow(x, 141 - m) ** FPow(FInt(141 - m), FInt(n)))), Fl("1e-11"))
\* logarithms of exponentials undo each other
LogExp == (R /\ 0 \prec x) => /\ Near(FExp(Log1mExp(x)) ++ FExp(FNeg(x)), Fl("1"), Fl("1e-14")) /\ Near(Log1pExp(x) -- x, Log1pExp(FNeg(x)), Fl("1e-12"))
                               /\ Near(LogSum(<<x, Fl("0")>>), Log1pExp(x), Fl("1e-14"))
Emit == PrintT("GEN " \o ToJson(IF R THEN [kind |-> "real", v |-> <<Reals1[k]>>] ELSE [kind |-> "complex", v |-> <<Moduli[((k - 1) \div Len(Angles)) + 1], Angles[((k - 1) % Len(Angles)) + 1]>>]))
=============================================================================
