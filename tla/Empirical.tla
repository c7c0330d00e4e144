----------------------------- MODULE Empirical -----------------------------
(***************************************************************************)
(* The empirical copula of n rows with doubled ranks rk[j][i] (column j,   *)
(* row i), and its smoothed versions.                                      *)
(***************************************************************************)
EXTENDS Reals, Ranks

Smoothings == {"none", "beta", "checkerboard"}
LnFact(n) == LnGamma(n ++ 1)
LnChoose(n, k) == LnFact(n) -- (LnFact(k) ++ LnFact(n -- k))
\* regularised incomplete beta function I_v(a, b) with a = r2/2, b = n + 1 - a
BetaInt(r, n, v) == FSum([i \in 1..(n - r + 1) |-> LET k == r + i - 1 IN FExp(LnChoose(n, k)) ** (FPow(v, k) ** FPow(1 -- v, n - k))])
BetaQuad(a, b, v) ==
  LET c == FExp((LnGamma(a) ++ LnGamma(b)) -- LnGamma(a ++ b))
      top == FAtan2(FSqrt(v), FSqrt(1 -- v))
  IN (2 // c) ** QuadN(LAMBDA s : FPow(FSin(s), (2 ** a) -- 1) ** FPow(FCos(s), (2 ** b) -- 1), Fl("0"), top, 3)
BetaCdf(r2, n, v) ==
  IF v \preceq 0 THEN Fl("0") ELSE IF 1 \preceq v THEN Fl("1")
  ELSE IF r2 % 2 = 0 THEN BetaInt(r2 \div 2, n, v) ELSE BetaQuad(r2 ** Half, (n + 1) -- (r2 ** Half), v)
BetaPdf(r2, n, v) ==
  LET a == r2 ** Half b == (n + 1) -- a
      c == (LnGamma(a) ++ LnGamma(b)) -- LnGamma(a ++ b)
  IN FExp(FNeg(c)) ** (FPow(v, a -- 1) ** FPow(1 -- v, b -- 1))
PobsOf(r2, n) == FDiv(FDiv(FInt(r2), FInt(2)), FInt(n + 1))
Kernel(sm, r2, n, v) ==
  CASE sm = "none" -> IF PobsOf(r2, n) \preceq v THEN Fl("1") ELSE Fl("0")
    [] sm = "beta" -> BetaCdf(r2, n, v)
    [] sm = "checkerboard" -> FMin(1, FMax(0, ((n ** v) -- (r2 ** Half)) ++ 1))
EmpCdf(rk, sm, offset, u) ==
  LET n == Len(rk[1])
  IN FSum([i \in 1..n |-> ProdOver(Len(u), LAMBDA j : Kernel(sm, rk[j][i], n, u[j]))]) // (n ++ offset)
EmpPdf(rk, offset, u) ==
  LET n == Len(rk[1])
  IN FSum([i \in 1..n |-> ProdOver(Len(u), LAMBDA j : BetaPdf(rk[j][i], n, u[j]))]) // (n ++ offset)
\* order statistic of column x at level u
SortedReals(x) == SortSeq(x, LAMBDA a, b : FLt(a, b))
OrderStat(sx, u) == LET n == Len(sx) k == FToInt(u ** n) IN sx[IMin(k, n - 1) + 1]
=============================================================================
