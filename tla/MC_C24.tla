------------------------------- MODULE MC_C24 -------------------------------
(***************************************************************************)
(* A point climbs through a grid for every stable law of a small family:   *)
(* the angular integrals are the law of the characteristic function, with  *)
(* its closed forms, reflection, continuity and tails.                     *)
(***************************************************************************)
EXTENDS Stable, TLC, Json
CONSTANTS Fine
VARIABLES al, be, k

Als == IF Fine THEN {"0.5", "0.7", "0.85", "0.97", "1", "1.03", "1.2", "1.5", "1.8", "1.99", "2"} ELSE {"0.5", "0.8", "1", "1.3", "1.7", "2"}
Bes == IF Fine THEN {"-1", "-0.9", "-0.3", "0", "0.2", "0.6", "1"} ELSE {"-1", "-0.4", "0", "0.7", "1"}
Xs == IF Fine THEN <<"-9", "-4.5", "-3", "-2", "-1.1", "-0.5", "-0.02", "0", "0.1", "0.3", "0.9", "1.5", "2.6", "4", "7", "20">> ELSE <<"-6", "-2", "-0.5", "0", "0.3", "1.5", "4", "9">>
Init == al \in Als /\ be \in Bes /\ k = 1
Climb == k < Len(Xs) /\ k' = k + 1 /\ UNCHANGED <<al, be>>
Spec == Init /\ [][Climb]_<<al, be, k>>

A == Fl(al)
B == Fl(be)
x == Fl(Xs[k])
y == Fl(Xs[k - 1])
\* the density by inversion of the characteristic function exp(-t^al (1 + i be tan(pi al / 2) (t^(1 - al) - 1)))
Phase(t) == IF FEq(A, 1) THEN ((2 ** B) // Pi) ** (t ** FLn(t)) ELSE FNeg(Zeta(A, B)) ** (t -- FPow(t, A))
Inverted == LET top == FPow(Fl("30"), 1 // A)
                F(t) == FCos((x ** t) ++ Phase(t)) ** FExp(FNeg(FPow(t, A)))
            IN (QuadN(F, Fl("0"), Fl("0.001"), 1) ++ (QuadN(F, Fl("0.001"), Fl("0.1"), 4) ++ QuadN(F, Fl("0.1"), top, 12 + FToInt(top)))) // Pi
ByInversion == (Fl("0.65") \preceq A) => FClose(StableDens(A, B, x), Inverted, Fl("1e-4"), Fl("2e-6"))
Levy == (FEq(A, Half) /\ FEq(B, 1)) => FClose(StableDens(A, B, x), IF x \preceq -1 THEN Fl("0") ELSE FExp(FNeg(1 // (2 ** (x ++ 1)))) // (FSqrt(2 ** Pi) ** FPow(x ++ 1, Fl("1.5"))), Fl("1e-6"), Fl("1e-12"))
\* a Gaussian and a Cauchy law whatever the parameterization of the angle
Closed == /\ FEq(A, 2) => FClose(StableDens(A, B, x), NPdf(x // FSqrt(2)) // FSqrt(2), Fl("1e-12"), 0)
          /\ (FEq(A, 1) /\ FEq(B, 0)) => FClose(StableDens(Fl("1.0001"), B, x), Cauchy(x), Fl("1e-3"), 0)
Mirror == FClose(StableDens(A, FNeg(B), FNeg(x)), StableDens(A, B, x), Fl("1e-9"), Fl("1e-14"))
\* the distribution function grows by the integral of the density
Accumulates == (k > 1) => FClose(StableCdf(A, B, x) -- StableCdf(A, B, y), QuadN(LAMBDA s : StableDens(A, B, s), y, x, 1 + FToInt((x -- y) // 3)), Fl("1e-3"), Fl("1e-3"))
Bounds == LET p == StableCdf(A, B, x) IN Fl("-1e-9") \preceq p /\ p \preceq Fl("1.000000001")
\* densities are continuous across the point where the integral degenerates, and across index one
AtTheKnot == (k = 1 /\ A \prec 2 /\ ~FEq(A, 1)) => LET z == Zeta(A, B) h == Fl("1e-4") ** (1 ++ FAbs(z)) v == AtZeta(A, B) IN
   (Fl("1e-3") \prec v) => FClose(StableDens(A, B, z ++ h), v, Fl("0.02"), 0) /\ FClose(StableDens(A, B, z -- h), v, Fl("0.02"), 0)
AcrossOne == FEq(A, 1) => FClose(StableDens(Fl("1.0005"), B, x), StableDens(A, B, x), Fl("0.01"), Fl("1e-4"))
Tails == (k = 1 /\ A \prec 2) => \A s \in {-1, 1} : (Fl("-0.95") \prec (s ** B)) => LET far == FMin(Fl("1e5"), FPow(Fl("1e8"), 1 // A)) IN FClose(StableDens(A, B, s ** far), Pareto(A, B, s ** far), Fl("0.02"), 0)
Peak == (k = 1 /\ ~FEq(B, 0)) => LET m == Mode(A, B) IN StableDens(A, B, m ++ Fl("0.02")) \preceq StableDens(A, B, m) /\ StableDens(A, B, m -- Fl("0.02")) \preceq StableDens(A, B, m)
Emit == PrintT("GEN " \o ToJson([kind |-> "stable", al |-> al, be |-> be, x |-> Xs[k]]))
=============================================================================
