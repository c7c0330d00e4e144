----------------------------- MODULE Likelihood -----------------------------
(* Pseudo-observations of a data matrix (sequence of columns) and the       *)
(* log-likelihood of a copula.                                              *)
EXTENDS Copulas, Ranks

Column(rows, j) == [i \in 1..Len(rows) |-> rows[i][j]]
Columns(rows) == [j \in 1..Len(rows[1]) |-> Column(rows, j)]
\* rows of pseudo-observations of rows of data
PobsRows(rows, rule) ==
  LET P == [j \in 1..Len(rows[1]) |-> PseudoObs(Column(rows, j), rule)]
  IN [i \in 1..Len(rows) |-> [j \in 1..Len(rows[1]) |-> P[j][i]]]
LogLik(c, rows, rule, topobs) ==
  LET U == IF topobs THEN PobsRows(rows, rule) ELSE rows
  IN FSum([i \in 1..Len(rows) |-> LogPdf(c, U[i])])
=============================================================================
