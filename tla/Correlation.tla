---------------------------- MODULE Correlation ----------------------------
(***************************************************************************)
(* Sample correlations of two sequences of reals, and correlation matrices *)
(* of data given as a sequence of rows in which NaN is a missing value.    *)
(***************************************************************************)
EXTENDS Reals, Ranks

Mean(x) == FSum(x) // Len(x)
Centred(x) == LET m == Mean(x) IN [i \in 1..Len(x) |-> x[i] -- m]
PearsonOf(x, y) ==
  LET a == Centred(x) b == Centred(y)
  IN FDot(a, b) // (FSqrt(FDot(a, a)) ** FSqrt(FDot(b, b)))
Ranked(x) == [i \in 1..Len(x) |-> FInt(RRank2(x, i, "average"))]
SpearmanOf(x, y) == PearsonOf(Ranked(x), Ranked(y))
Sg(a, b) == IF b \prec a THEN 1 ELSE IF a \prec b THEN -1 ELSE 0
PairsOf(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}
ISumOver(n, F(_)) == FoldLeft(LAMBDA acc, i : acc + F(i), 0, [i \in 1..n |-> i])
\* tau-b: (concordant - discordant) / sqrt((pairs untied in x) (pairs untied in y))
KendallOf(x, y) ==
  LET n == Len(x)
      S == ISumOver(n, LAMBDA i : ISumOver(i - 1, LAMBDA j : Sg(x[i], x[j]) * Sg(y[i], y[j])))
      U(z) == ISumOver(n, LAMBDA i : ISumOver(i - 1, LAMBDA j : IF FEq(z[i], z[j]) THEN 0 ELSE 1))
  IN S // FSqrt(U(x) ** U(y))
CorrelationOf(method, x, y) ==
  CASE method = "pearson" -> PearsonOf(x, y)
    [] method \in {"kendall", "tau"} -> KendallOf(x, y)
    [] method \in {"spearman", "rho"} -> SpearmanOf(x, y)

(* missing values *)
Col(rows, j) == [i \in 1..Len(rows) |-> rows[i][j]]
CompleteIn(rows, J) == SelectSeq(rows, LAMBDA r : \A j \in J : ~FIsNaN(r[j]))
Used(rows, i, j, use) ==
  CASE use = "everything" -> rows
    [] use = "complete" -> CompleteIn(rows, 1..Len(rows[1]))
    [] use = "pairwise.complete" -> CompleteIn(rows, {i, j})
HasMissing(rows, i, j) == \E r \in 1..Len(rows) : FIsNaN(rows[r][i]) \/ FIsNaN(rows[r][j])
Varies(x) == \E i \in 1..Len(x) : ~FEq(x[i], x[1])
Entry(rows, i, j, method, use) ==
  IF i = j THEN Fl("1")
  ELSE LET R == Used(rows, i, j, use)
       IN IF HasMissing(R, i, j) THEN NaN ELSE CorrelationOf(method, Col(R, i), Col(R, j))
\* the statistic is defined when two rows are left and neither column is constant
Defined(rows, i, j, use) == i = j \/ LET R == Used(rows, i, j, use) IN HasMissing(R, i, j) \/ (Len(R) >= 2 /\ Varies(Col(R, i)) /\ Varies(Col(R, j)))
\* an infinite value is not a missing one: its row stays in use; the statistic may then be reported as undefined
HasInfinity(rows, i, j, use) == \E r \in ToSet(Used(rows, i, j, use)) : FEq(FAbs(r[i]), Inf) \/ FEq(FAbs(r[j]), Inf)
=============================================================================
