------------------------------- MODULE MC_C21 -------------------------------
(***************************************************************************)
(* All small symmetric integer matrices, written pair by pair from the     *)
(* vector of their lower triangle; definiteness by minors, by elimination, *)
(* by the spectrum and by the quadratic form; the repairs.                 *)
(***************************************************************************)
EXTENDS Spectral, TLC, Json
CONSTANTS Dims, Diag, Off, Off4
COff == -2..2
COff4 == {-2, -1, 1}
COffT == -3..3
CDiagT == -1..3
COff4T == -2..2
VARIABLES d, k, m

NP == (d * (d - 1)) \div 2
\* the k-th pair of the triangle: columns of the lower, rows of the upper
PairNo(n) == CHOOSE p \in (1..d) \X (1..d) : p[1] < p[2] /\ PairIndex(d, p[1], p[2]) = n
Init == /\ d \in Dims /\ k = 0
        /\ \E g \in [1..d -> IF d = 4 THEN {2} ELSE Diag] : m = [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN g[i] ELSE 0]]
Next == /\ k < NP /\ k' = k + 1 /\ d' = d
        /\ \E v \in (IF d = 4 THEN Off4 ELSE Off) : LET p == PairNo(k') IN m' = [m EXCEPT ![p[1]][p[2]] = v, ![p[2]][p[1]] = v]
Spec == Init /\ [][Next]_<<d, k, m>>

Full == k = NP
Symmetric == ISymmetric(m)
\* the strict lower triangle read column by column is the vector written
ReadBack == [][\A n \in 1..k : LET p == PairNo(n) IN m'[p[2]][p[1]] = m[p[2]][p[1]]]_<<d, k, m>>
Form(x) == FoldLeft(LAMBDA a, i : a + FoldLeft(LAMBDA b, j : b + x[i] * m[i][j] * x[j], 0, [j \in 1..d |-> j]), 0, [i \in 1..d |-> i])
Box == [1..d -> IF d = 4 THEN -1..1 ELSE -2..2]
FormAgrees == Full => /\ IPsd(m) => \A x \in Box : Form(x) >= 0
                      /\ IPd(m) => \A x \in Box : (\E i \in 1..d : x[i] # 0) => Form(x) > 0
                      /\ IPd(m) => IPsd(m)
SpectrumAgrees == Full => LET w == Eigen(m).w IN
   /\ IPsd(m) = (Fl("-1e-9") \preceq MinSeq(w)) /\ IPd(m) = (Fl("1e-9") \prec MinSeq(w))
   /\ FClose(FProd(w), IDet(m), Fl("1e-9"), Fl("1e-9")) /\ FClose(FSum(w), FSum([i \in 1..d |-> m[i][i]]), Fl("1e-12"), Fl("1e-12"))
CholeskyAgrees == Full => IsPosDef(Keep([i \in 1..d |-> [j \in 1..d |-> IF i = j THEN m[i][j] -- Fl("1e-9") ELSE m[i][j] ++ Fl("0")]])) = IPd(m)
\* the clipping repair of a matrix with positive diagonal
Positive == \A i \in 1..d : m[i][i] > 0
RepairWorks == (Full /\ Positive) => LET X == Clipped(m, Fl("0")) IN
   /\ \A i, j \in 1..d : FClose(X[i][j], X[j][i], Fl("1e-12"), Fl("1e-12")) /\ FClose(X[i][i], m[i][i], Fl("1e-12"), 0)
   /\ Fl("-1e-9") \preceq MinEigen(X)
   /\ IPsd(m) => \A i, j \in 1..d : FClose(X[i][j], m[i][j], 0, Fl("1e-9"))
\* a valid correlation matrix is nearest to itself; two by two matrices are repaired to the closest end
NearestOfValid == (Full /\ Positive) => (IPsd(m) => IsNearest(ToCorr(m), ToCorr(m), Fl("1e-9")))
NearestOfTwo == (Full /\ Positive /\ d = 2) => LET R == ToCorr(m) e == FMax(-1, FMin(1, R[1][2])) IN IsNearest(R, <<<<Fl("1"), e>>, <<e, Fl("1")>>>>, Fl("1e-9"))
Emit == Full => PrintT("GEN " \o ToJson(m))
=============================================================================
