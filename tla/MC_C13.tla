------------------------------- MODULE MC_C13 -------------------------------
(***************************************************************************)
(* Design model of the empirical copula: the rows of a small bivariate     *)
(* sample (all patterns of values, ties included) arrive one by one.  For  *)
(* every complete sample, tie rule and smoothing the distribution function *)
(* vanishes on the lower faces, grows along the grid, ends at 1 and stays  *)
(* below its margins; without ties the smoothed margins are uniform.       *)
(***************************************************************************)
EXTENDS Empirical, TLC, Json
CONSTANTS N, K
VARIABLES rows

Init == rows = <<>>
Later(r) == IF rows = <<>> THEN TRUE ELSE LET l == rows[Len(rows)] IN r[1] >= l[1]
Read == Len(rows) < N /\ \E r \in (1..K) \X (1..K) : Later(r) /\ rows' = Append(rows, r)
Spec == Init /\ [][Read]_rows

Full == Len(rows) = N
ColI(j) == [i \in 1..N |-> rows[i][j]]
RanksBy(t) == <<IRanks2(ColI(1), t), IRanks2(ColI(2), t)>>
Grid == <<Fl("0"), Fl("0.25"), Fl("0.4"), Fl("0.75"), Fl("1")>>
F(t, sm, i, j) == EmpCdf(RanksBy(t), sm, 0, <<Grid[i], Grid[j]>>)
Tol == Fl("1e-12")
DistributionFunction ==
  Full => \A t \in {"average", "dense"} : \A sm \in Smoothings :
    LET T == [i \in 1..5 |-> [j \in 1..5 |-> F(t, sm, i, j)]]
    IN /\ \A i \in 1..5 : FEq(T[i][1], 0) /\ FEq(T[1][i], 0)
       /\ FClose(T[5][5], 1, 0, Tol)
       /\ \A i \in 1..4 : \A j \in 1..5 : (T[i][j] \preceq (T[i + 1][j] ++ Tol)) /\ (T[j][i] \preceq (T[j][i + 1] ++ Tol))
NoTies == \A j \in 1..2 : \A p, q \in 1..N : p # q => rows[p][j] # rows[q][j]
UniformMargins == (Full /\ NoTies) => \A sm \in {"beta", "checkerboard"} : \A i \in 1..5 :
   FClose(F("average", sm, i, 5), Grid[i], 0, Tol) /\ FClose(F("average", sm, 5, i), Grid[i], 0, Tol)
\* the binomial form and the integral form of the beta kernel agree
BetaForms == (rows = <<>>) => \A n \in 2..5 : \A r \in 1..n : \A i \in 2..4 : FClose(BetaInt(r, n, Grid[i]), BetaQuad(FInt(r), FInt(n + 1 - r), Grid[i]), 0, Fl("1e-11"))
Emit == Full => PrintT("GEN " \o ToJson([rows |-> rows]))
=============================================================================
