------------------------------ MODULE Spectral ------------------------------
(***************************************************************************)
(* Definiteness of symmetric matrices: exactly over the integers by minors *)
(* and over the reals by the spectrum (cyclic Jacobi rotations); matrix    *)
(* repairs.                                                                *)
(***************************************************************************)
EXTENDS Matrix

(* integers *)
Minor(A, r, c) == [i \in 1..(Len(A) - 1) |-> [j \in 1..(Len(A) - 1) |-> A[IF i < r THEN i ELSE i + 1][IF j < c THEN j ELSE j + 1]]]
RECURSIVE IDet(_)
IDet(A) == IF Len(A) = 0 THEN 1 ELSE IF Len(A) = 1 THEN A[1][1]
           ELSE FoldLeft(LAMBDA acc, j : acc + (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * IDet(Minor(A, 1, j)), 0, [j \in 1..Len(A) |-> j])
SubMatrix(A, S) == LET s == SetToSortSeq(S, <) IN [i \in 1..Len(s) |-> [j \in 1..Len(s) |-> A[s[i]][s[j]]]]
ISymmetric(A) == \A i \in 1..Len(A) : Len(A[i]) = Len(A) /\ \A j \in 1..Len(A) : A[i][j] = A[j][i]
IPsd(A) == \A S \in SUBSET (1..Len(A)) : IDet(SubMatrix(A, S)) >= 0
IPd(A) == \A k \in 1..Len(A) : IDet(SubMatrix(A, 1..k)) > 0

(* reals *)
Keep(A) == FoldLeft(LAMBDA M, r : Append(M, FoldLeft(LAMBDA s, x : Append(s, x), <<>>, r)), <<>>, A)    \* evaluated once
RealMat(A) == Keep([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> A[i][j] ++ Fl("0")]])
Transpose(A) == [i \in 1..Len(A[1]) |-> [j \in 1..Len(A) |-> A[j][i]]]
MatMul(A, B) == LET T == Transpose(B) IN [i \in 1..Len(A) |-> [j \in 1..Len(T) |-> FDot(A[i], T[j])]]
MatMap2(A, B, Op(_, _)) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> Op(A[i][j], B[i][j])]]
MaxAbs(A) == FoldLeft(LAMBDA m, r : FoldLeft(LAMBDA k, x : FMax(k, FAbs(x)), m, r), Fl("0"), A)
FrobSq(A) == FSum([i \in 1..Len(A) |-> FDot(A[i], A[i])])
\* one rotation of the pair (p, q) that annuls S.a[p][q]; the columns of S.v are the accumulated eigenvectors
Rotate(S, p, q) ==
  LET apq == S.a[p][q] IN
  IF FEq(apq, 0) THEN S ELSE
  LET th == (S.a[q][q] -- S.a[p][p]) // (2 ** apq)
      t == (IF th \prec 0 THEN Fl("-1") ELSE Fl("1")) // (FAbs(th) ++ FSqrt(1 ++ Sq(th)))
      c == 1 // FSqrt(1 ++ Sq(t))
      s == t ** c
      Cols(M) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> IF j = p THEN (c ** M[i][p]) -- (s ** M[i][q]) ELSE IF j = q THEN (s ** M[i][p]) ++ (c ** M[i][q]) ELSE M[i][j]]]
      Rows(M) == [i \in 1..Len(M) |-> IF i = p THEN [j \in 1..Len(M) |-> (c ** M[p][j]) -- (s ** M[q][j])] ELSE IF i = q THEN [j \in 1..Len(M) |-> (s ** M[p][j]) ++ (c ** M[q][j])] ELSE M[i]]
  IN [a |-> Keep(Rows(Keep(Cols(S.a)))), v |-> Keep(Cols(S.v))]
Sweep(S) == FoldLeft(LAMBDA T, p : FoldLeft(LAMBDA U, q : IF p < q THEN Rotate(U, p, q) ELSE U, T, [k \in 1..Len(S.a) |-> k]), S, [k \in 1..Len(S.a) |-> k])
OffSq(A) == FSum([i \in 1..Len(A) |-> FSum([j \in 1..Len(A) |-> IF i = j THEN Fl("0") ELSE Sq(A[i][j])])])
\* symmetric A = v diag(w) v'
Eigen(A) == LET S == FoldLeft(LAMBDA T, k : IF OffSq(T.a) \preceq (Fl("1e-31") ** FrobSq(T.a)) THEN T ELSE Sweep(T), [a |-> RealMat(A), v |-> RealMat(IdMat(Len(A)))], [k \in 1..30 |-> k])
            IN [w |-> [i \in 1..Len(A) |-> S.a[i][i]], v |-> S.v]
Rebuild(w, v) == Keep([i \in 1..Len(w) |-> [j \in 1..Len(w) |-> FSum([k \in 1..Len(w) |-> v[i][k] ** (w[k] ** v[j][k])])]])
MinEigen(A) == MinSeq(Eigen(A).w)

(* scale *)
Std(A) == [i \in 1..Len(A) |-> FSqrt(A[i][i])]
ToCorr(A) == Keep([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> A[i][j] // (FSqrt(A[i][i]) ** FSqrt(A[j][j]))]])
ToCov(R, s) == Keep([i \in 1..Len(R) |-> [j \in 1..Len(R) |-> R[i][j] ** (s[i] ** s[j])]])
\* eigenvalues below the threshold raised to it, then the diagonal restored to one
Clipped(A, thr) == LET E == Eigen(ToCorr(A)) IN ToCov(ToCorr(Rebuild([k \in 1..Len(A) |-> FMax(E.w[k], thr)], E.v)), Std(A))
\* X is the correlation matrix nearest to the symmetric matrix R: X - R has, off the diagonal, the entries of a
\* positive semi-definite matrix that annihilates X
Multiplier(R, X) == LET O == MatMap2(X, R, LAMBDA x, r : x -- r)
                    IN Keep([i \in 1..Len(X) |-> [j \in 1..Len(X) |-> IF i # j THEN O[i][j] ELSE FSum([k \in 1..Len(X) |-> IF k = i THEN Fl("0") ELSE FNeg(O[i][k] ** X[k][i])])]])
IsNearest(R, X, tol) == LET M == Multiplier(R, X) IN MaxAbs(MatMul(M, X)) \preceq tol /\ FNeg(tol) \preceq MinEigen(M)
=============================================================================
