------------------------------ MODULE MC_C24b ------------------------------
(***************************************************************************)
(* A walk over the parameters of a multivariate Student law: dimension     *)
(* grows, degrees of freedom double towards the normal limit, the centre   *)
(* and the scale move.                                                     *)
(***************************************************************************)
EXTENDS Stable, TLC, Json
CONSTANTS MaxDim, MaxDoublings
VARIABLES d, v, r, moved

Rhos == {"-0.4", "0", "0.3", "0.85"}
Init == d = 1 /\ v = 1 /\ r \in Rhos /\ moved = FALSE
Grow == d < MaxDim /\ d' = d + 1 /\ UNCHANGED <<v, r, moved>>
Double == v < MaxDoublings /\ v' = v + 1 /\ UNCHANGED <<d, r, moved>>
Move == ~moved /\ moved' = TRUE /\ UNCHANGED <<d, v, r>>
Spec == Init /\ [][Grow \/ Double \/ Move]_<<d, v, r, moved>>

Df == Half ** FPow(Fl("2"), Fl(ToString(v - 1)))
Rho == IF d > 3 /\ r = "-0.4" THEN Fl("-0.1") ELSE Fl(r)
Scale(i) == IF moved THEN Half ** (i + 1) ELSE Fl("1")
Cov(n) == [i \in 1..n |-> [j \in 1..n |-> (IF i = j THEN Fl("1") ELSE Rho) ** (Scale(i) ** Scale(j))]]
X(n) == [i \in 1..n |-> IF i % 2 = 0 THEN Fl("-0.6") ** i ELSE Fl("0.4") ** i]
Ld(n, w) == MvtLogPdf(X(n), Cov(n), w)
\* in one dimension: the univariate law
One1 == d = 1 => FClose(Ld(1, Df), TLogPdf(X(1)[1] // Scale(1), Df) -- FLn(Scale(1)), Fl("1e-12"), Fl("1e-12"))
\* the last coordinate integrates away
Marginal == d > 1 => LET y == Scale(d)
                         G(a) == FExp(MvtLogPdf(Append(X(d - 1), y ** (FSin(a) // FCos(a))), Cov(d), Df)) ** (y // Sq(FCos(a)))
                         h == Half ** Pi
                     IN FClose(QuadN(G, FNeg(h), h, 16), FExp(Ld(d - 1, Df)), Fl("1e-5"), Fl("1e-12"))
\* the density approaches the normal one, from either side
NormalLimit == FClose(Ld(d, Fl("1e7")), MvnDev(X(d), Cov(d)), Fl("1e-4"), Fl("1e-4"))
\* stretching space
Stretch == LET c == Fl("3") IN FClose(MvtLogPdf([i \in 1..d |-> c ** X(d)[i]], [i \in 1..d |-> [j \in 1..d |-> Sq(c) ** Cov(d)[i][j]]], Df), Ld(d, Df) -- (d ** FLn(c)), Fl("1e-12"), Fl("1e-12"))
TAny(x, w) == LET G(a) == FExp(TLogPdf(FSin(a) // FCos(a), w)) // Sq(FCos(a)) IN QuadN(G, Fl("-1.5707963"), FAtan(x), 16)
\* the mixture over the scale: central case is the Student law, and the non-central one shifts mass
Mixture == (d = 1 /\ 1 \preceq Df) => /\ FClose(NonCentral(Fl("0.7"), Fl("0"), Df), TAny(Fl("0.7"), Df), Fl("1e-6"), Fl("1e-7"))
                      /\ NonCentral(Fl("0.7"), Fl("1"), Df) \prec NonCentral(Fl("0.7"), Fl("0"), Df)
Peak == Ld(d, Df) \preceq MvtLogPdf([i \in 1..d |-> Fl("0")], Cov(d), Df)
Emit == r = "0.3" => PrintT("GEN " \o ToJson([kind |-> "mvt", d |-> d, df |-> FShow(Df), moved |-> moved]))
=============================================================================
