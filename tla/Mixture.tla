------------------------------ MODULE Mixture ------------------------------
(***************************************************************************)
(* Gaussian mixtures: a mixture is a record [w, m, s] of component         *)
(* weights, mean vectors and covariance matrices (sequences of rows).      *)
(***************************************************************************)
EXTENDS Copulas

NComp(g) == Len(g.w)
NDim(g) == Len(g.m[1])
Weights(g) == MapSeq(g.w, LAMBDA x : x)
Sd(g, k, j) == FSqrt(g.s[k][j][j])
CorrIn(g, k) == [i \in 1..NDim(g) |-> [j \in 1..NDim(g) |-> g.s[k][i][j] // (Sd(g, k, i) ** Sd(g, k, j))]]

\* multivariate normal
MvnLogPdf(x, mu, S) ==
  LET L == Chol(S)
      z == [i \in 1..Len(x) |-> x[i] -- mu[i]]
  IN FNeg(Half ** ((LnDet(L) ++ QuadForm(L, z)) ++ (Len(x) ** FLn(2 ** Pi))))
Finite(x) == SelectSeq([i \in 1..Len(x) |-> i], LAMBDA i : ~FEq(x[i], Inf))
\* P(Z <= z) for standardised z and correlation R, up to three dimensions
MvnStdCdf(z, R) ==
  IF \E i \in 1..Len(z) : FEq(z[i], NegInf) THEN Fl("0")
  ELSE LET k == Finite(z) n == Len(k)
           IN CASE n = 0 -> Fl("1")
                [] n = 1 -> NCdf(z[k[1]])
                [] n = 2 -> BvnCdf(z[k[1]], z[k[2]], R[k[1]][k[2]])
                [] n = 3 -> TvnCdf([i \in 1..3 |-> z[k[i]]], [i \in 1..3 |-> [j \in 1..3 |-> R[k[i]][k[j]]]])

MixPdf(g, x) == SumOver(NComp(g), LAMBDA k : g.w[k] ** FExp(MvnLogPdf(x, g.m[k], g.s[k])))
MixCdf(g, x) ==
  SumOver(NComp(g), LAMBDA k : g.w[k] ** MvnStdCdf([j \in 1..Len(x) |-> (x[j] -- g.m[k][j]) // Sd(g, k, j)], CorrIn(g, k)))
\* margins
MargPdf(g, j, x) == SumOver(NComp(g), LAMBDA k : g.w[k] ** (NPdf((x -- g.m[k][j]) // Sd(g, k, j)) // Sd(g, k, j)))
MargCdf(g, j, x) == SumOver(NComp(g), LAMBDA k : g.w[k] ** NCdf((x -- g.m[k][j]) // Sd(g, k, j)))
MargQuantile(g, j, u) ==
  IF FEq(u, 1) THEN Inf ELSE IF FEq(u, 0) THEN NegInf ELSE
  LET lo == MinSeq([k \in 1..NComp(g) |-> g.m[k][j] -- (9 ** Sd(g, k, j))])
      hi == MaxSeq([k \in 1..NComp(g) |-> g.m[k][j] ++ (9 ** Sd(g, k, j))])
      r == Loop(60, <<lo, hi>>, LAMBDA b, n : LET x == (b[1] ++ b[2]) ** Half IN IF MargCdf(g, j, x) \prec u THEN <<x, b[2]>> ELSE <<b[1], x>>)
  IN (r[1] ++ r[2]) ** Half
\* the copula of the mixture
MixCopulaCdf(g, u) == MixCdf(g, [j \in 1..Len(u) |-> MargQuantile(g, j, u[j])])
MixCopulaLogPdf(g, u) ==
  LET x == [j \in 1..Len(u) |-> MargQuantile(g, j, u[j])]
  IN FLn(MixPdf(g, x)) -- SumOver(Len(u), LAMBDA j : FLn(MargPdf(g, j, x[j])))

(***************************************************************************)
(* Pseudo expectation-maximisation on rows U of pseudo-observations.       *)
(***************************************************************************)
EagerSeq(s) == FoldLeft(LAMBDA acc, x : Append(acc, x), <<>>, s)
QuantileRows(g, U) == EagerSeq([i \in 1..Len(U) |-> EagerSeq([j \in 1..Len(U[1]) |-> MargQuantile(g, j, U[i][j])])])
GmmLogLik(g, Q) == SumOver(Len(Q), LAMBDA i : FLn(MixPdf(g, Q[i])))
MargLogLiks(g, Q) == SumOver(Len(Q), LAMBDA i : SumOver(Len(Q[1]), LAMBDA j : FLn(MargPdf(g, j, Q[i][j]))))
CopulaLogLik(g, Q) == GmmLogLik(g, Q) -- MargLogLiks(g, Q)
\* posterior component probabilities of every row
Posteriors(g, Q) ==
  EagerSeq([i \in 1..Len(Q) |-> LET p == EagerSeq([k \in 1..NComp(g) |-> g.w[k] ** FExp(MvnLogPdf(Q[i], g.m[k], g.s[k]))]) t == FSum(p)
                                IN EagerSeq([k \in 1..NComp(g) |-> p[k] // t])])
EmStep(g, Q) ==
  LET P == Posteriors(g, Q) n == Len(Q) d == Len(Q[1]) m == NComp(g)
      N == EagerSeq([k \in 1..m |-> SumOver(n, LAMBDA i : P[i][k])])
      M == EagerSeq([k \in 1..m |-> EagerSeq([j \in 1..d |-> SumOver(n, LAMBDA i : P[i][k] ** Q[i][j]) // N[k]])])
  IN [w |-> EagerSeq([k \in 1..m |-> N[k] // n]), m |-> M,
      s |-> [k \in 1..m |-> EagerSeq([a \in 1..d |-> EagerSeq([b \in 1..d |-> SumOver(n, LAMBDA i : P[i][k] ** ((Q[i][a] -- M[k][a]) ** (Q[i][b] -- M[k][b]))) // N[k]])])]]
\* stopping: has the rule for a criterion been met between steps k - 1 and k (sequences indexed from 1)
Change(crit, gmm, gmcm, k) ==
  FAbs(CASE crit = "GMCM" -> gmcm[k] -- gmcm[k - 1] [] crit = "GMM" -> gmm[k] -- gmm[k - 1] [] crit = "LI" -> gmm[k] -- gmcm[k - 1])
\* the iterate kept at the end
ArgMaxFirst(v) == CHOOSE k \in 1..Len(v) : (\A l \in 1..Len(v) : v[l] \preceq v[k]) /\ \A l \in 1..(k - 1) : v[l] \prec v[k]
=============================================================================
