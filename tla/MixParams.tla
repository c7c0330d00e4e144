----------------------------- MODULE MixParams -----------------------------
(***************************************************************************)
(* Parameter sets of Gaussian mixtures and what may be written into them.  *)
(* A written value is a record [shape, v] (row-major numbers; shape <<-1>> *)
(* when it is not a numeric array at all).                                 *)
(***************************************************************************)
EXTENDS Matrix

Cut(v, from, n) == SubSeq(v, from, from + n - 1)
RowsOf(v, r, c) == [i \in 1..r |-> Cut(v, (i - 1) * c + 1, c)]
MatsOf(v, m, d) == [k \in 1..m |-> RowsOf(Cut(v, (k - 1) * d * d + 1, d * d), d, d)]
Finite(v) == \A i \in 1..Len(v) : FIsFinite(v[i])

MaxDiag(A) == MaxSeq([i \in 1..Len(A) |-> FAbs(A[i][i])])
SymmetricMat(A) == \A i, j \in 1..Len(A) : FClose(A[i][j], A[j][i], Fl("1e-6"), Fl("1e-9"))
\* non-negative eigenvalues up to a tolerance (relative to the size of the matrix)
SemiDefinite(A, tol) ==
  LET s == MaxDiag(A) e == (IF FEq(s, 0) THEN Fl("1") ELSE s) ** tol
      B == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i = j THEN A[i][j] ++ e ELSE A[i][j]]]
  IN IsPosDef(B)
Repairable(A) == SymmetricMat(A) /\ \A i \in 1..Len(A) : 0 \prec A[i][i]
ValidCov(A) == SymmetricMat(A) /\ (SemiDefinite(A, Fl("1e-13")) \/ Repairable(A))

ValidProb(m, x) == Len(x.shape) = 1 /\ x.shape[1] = m /\ Finite(x.v) /\ (\A i \in 1..m : 0 \preceq x.v[i] /\ x.v[i] \preceq 1) /\ FClose(FSum(x.v), 1, 0, Fl("1e-6"))
ValidMeans(m, d, x) == x.shape = <<m, d>>
ValidCovs(m, d, x) == x.shape = <<m, d, d>> /\ Finite(x.v) /\ LET S == MatsOf(x.v, m, d) IN \A k \in 1..m : ValidCov(S[k])
\* the set as a whole
Same(a, b, r) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FClose(a[i], b[i], r, Fl("1e-300"))
SameMat(A, B, r) == \A i, j \in 1..Len(A) : FClose(A[i][j], B[i][j], r, MaxDiag(A) ** r)
\* what is held after A was written
Holds(A, B) == IF SemiDefinite(A, Fl("1e-13")) THEN SameMat(A, B, Fl("1e-6"))
               ELSE SymmetricMat(B) /\ SemiDefinite(B, Fl("1e-9")) /\ \A i \in 1..Len(A) : FClose(A[i][i], B[i][i], Fl("1e-7"), 0)
=============================================================================
