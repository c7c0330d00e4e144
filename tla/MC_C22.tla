------------------------------- MODULE MC_C22 -------------------------------
(***************************************************************************)
(* The parameter of each family climbs its range.  At every value the      *)
(* measures of Measures.tla agree with their definitions: tau by the       *)
(* integral of the generator (or of the copula against its density), rho   *)
(* by the volume under the copula, derivatives by differences, inverses by *)
(* composition, tail dependence by the copula close to the corners.        *)
(***************************************************************************)
EXTENDS Measures, TLC, Json
CONSTANTS Deep
VARIABLES fam, k

Levels(f) == CASE f = "clayton" -> <<"-0.95", "-0.5", "-0.05", "0.02", "0.5", "1", "2", "5", "12", "30">>
              [] f = "frank" -> <<"-60", "-25", "-8", "-2", "-0.5", "-0.09", "-0.015", "0", "0.01", "0.05", "0.11", "0.8", "3", "9", "31", "120">>
              [] f = "gumbel" -> <<"1", "1.01", "1.3", "2", "3.7", "10", "30">>
              [] f = "gaussian" -> <<"-0.99", "-0.6", "-0.1", "0", "0.05", "0.3", "0.5", "0.8", "0.95">>
T(j) == Fl(Levels(fam)[j])
t == T(k)
c == [fam |-> fam, d |-> 2, par |-> <<t>>]
Init == fam \in {"clayton", "frank", "gumbel", "gaussian"} /\ k = 1
Climb == k < Len(Levels(fam)) /\ k' = k + 1 /\ fam' = fam
Spec == Init /\ [][Climb]_<<fam, k>>

OffersRho == fam \in {"frank", "gaussian"}
Increasing == k > 1 => TauOf(fam, T(k - 1)) \prec TauOf(fam, t) /\ (OffersRho => RhoOf(fam, T(k - 1)) \prec RhoOf(fam, t))
InRange == FAbs(TauOf(fam, t)) \preceq 1 /\ (OffersRho => FAbs(RhoOf(fam, t)) \preceq 1)
\* tau = 1 + 4 int phi / phi'
Ratio(u) == IPsi(c, u) // DIPsi1(c, u)
TauByGenerator == (fam \in Archimedean /\ ~FEq(t, 0) /\ FAbs(t) \preceq 31) =>
   FClose(TauOf(fam, t), 1 ++ (4 ** (QuadN(Ratio, Fl("0"), Fl("0.1"), 6) ++ QuadN(Ratio, Fl("0.1"), Fl("1"), 8))), 0, Fl("1e-5"))
\* tau of the normal copula: 4 E C(U, V) - 1 = 4 P(X1 < X2, Y1 < Y2) - 1; the differences have the same correlation
TauOfNormal == fam = "gaussian" => FClose(TauOf(fam, t), (4 ** BvnCdf(Fl("0"), Fl("0"), t)) -- 1, 0, Fl("1e-9"))
\* rho = 12 int int C - 3
Inner(u) == Quad8(LAMBDA v : Cdf(c, <<u, v>>), Fl("0"), Half) ++ Quad8(LAMBDA v : Cdf(c, <<u, v>>), Half, Fl("1"))
RhoByVolume == (OffersRho /\ FAbs(t) \preceq 10 /\ (Deep \/ fam = "frank")) =>
   FClose(RhoOf(fam, t), (12 ** (Quad8(Inner, Fl("0"), Half) ++ Quad8(Inner, Half, Fl("1")))) -- 3, 0, Fl("5e-3"))
\* rho of the normal copula: U < V jointly with two independent coordinates has half the correlation
RhoOfNormal == fam = "gaussian" => FClose(RhoOf(fam, t), (12 ** BvnCdf(Fl("0"), Fl("0"), t ** Half)) -- 3, 0, Fl("1e-9"))
H == Fl("0.001") ** FMax(Fl("0.01"), IF fam = "gaussian" THEN 1 -- FAbs(t) ELSE FMin(1, FAbs(t)))
Slope(M(_)) == (M(t ++ H) -- M(t -- H)) // (2 ** H)
DerivativesTrue == /\ FClose(DTauOf(fam, t), Slope(LAMBDA x : TauOf(fam, x)), Fl("1e-4"), Fl("2e-7"))
                   /\ OffersRho => FClose(DRhoOf(fam, t), Slope(LAMBDA x : RhoOf(fam, x)), Fl("1e-4"), Fl("2e-7"))
InversesUndo == /\ FClose(ITauOf(fam, TauOf(fam, t)), t, Fl("1e-7"), Fl("1e-9"))
                /\ fam = "gaussian" => FClose(IRhoOf(fam, RhoOf(fam, t)), t, Fl("1e-12"), Fl("1e-12"))
\* the limits of C(q, q) / q and (1 - 2 q + C(q, q)) / (1 - q); the normal copula reaches zero too slowly to see
Lower(q) == Cdf(c, <<q, q>>) // q
Upper(q) == ((1 -- (2 ** q)) ++ Cdf(c, <<q, q>>)) // (1 -- q)
TailsAreLimits == (fam \in Archimedean /\ ~FEq(t, 0) /\ (fam # "frank" \/ FAbs(t) \preceq 10) /\ (fam # "clayton" \/ 0 \prec t)) =>
   /\ FClose(TailOf(fam, t)[1], Lower(Fl("1e-9")), 0, IF fam = "gumbel" THEN (IF t \prec 3 THEN Fl("0.05") ELSE Fl("1")) ELSE IF t \prec Fl("0.1") THEN Fl("0.5") ELSE Fl("1e-4"))
   /\ FClose(TailOf(fam, t)[2], Upper(1 -- (Fl("1e-6"))), 0, Fl("1e-4"))
Emit == PrintT("GEN " \o ToJson([fam |-> fam, theta |-> Levels(fam)[k]]))
=============================================================================
