------------------------------- MODULE Matrix -------------------------------
(***************************************************************************)
(* Small dense linear algebra; a matrix is a sequence of rows.             *)
(***************************************************************************)
EXTENDS Reals

Dim(A) == Len(A)
IdMat(d) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN 1 ELSE 0]]
MatVec(A, x) == [i \in 1..Len(A) |-> FDot(A[i], x)]

\* lower Cholesky factor as rows of increasing length; a row holding NaN marks failure
CholRow(A, L, i) ==
  Loop(i, <<>>, LAMBDA row, j :
     LET s == A[i][j] -- FSum([k \in 1..(j - 1) |-> row[k] ** (IF j = i THEN row[k] ELSE L[j][k])])
     IN Append(row, IF j = i THEN FSqrt(s) ELSE s // L[j][j]))
Chol(A) == Loop(Len(A), <<>>, LAMBDA L, i : Append(L, CholRow(A, L, i)))
LnDet(L) == 2 ** FSum([i \in 1..Len(L) |-> FLn(L[i][i])])
\* solve L y = b
Forward(L, b) ==
  Loop(Len(L), <<>>, LAMBDA y, i : Append(y, (b[i] -- FSum([k \in 1..(i - 1) |-> L[i][k] ** y[k]])) // L[i][i]))
\* b' A^-1 b where A = L L'
QuadForm(L, b) == LET y == Forward(L, b) IN FDot(y, y)
IsPosDef(A) == \A i \in 1..Len(A) : LET L == Chol(A) IN 0 \prec L[i][i]

\* symmetric matrix with unit diagonal from the lower triangle in column order
\* (pairs (2,1), (3,1), .., (d,1), (3,2), ..)
PairIndex(d, i, j) == LET a == IMin(i, j) b == IMax(i, j) IN (a - 1) * d - ((a * (a - 1)) \div 2) + (b - a)
CorrFromVec(d, v) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN Fl("1") ELSE v[PairIndex(d, i, j)]]]
DimOfVec(n) == CHOOSE d \in 2..60 : d * (d - 1) = 2 * n
=============================================================================
