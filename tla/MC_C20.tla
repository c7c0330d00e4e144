------------------------------ MODULE MC_C20 ------------------------------
(***************************************************************************)
(* The triangles of combinatorial numbers built row by row by their        *)
(* recursions, and the identities that tie them to their definitions.      *)
(* p / q is the reciprocal parameter alpha of a Gumbel copula; a[d, k] is   *)
(* its coefficient times q^d.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS MaxRow, MaxQ
VARIABLES n, s1, s2, eu, a, p, q

vars == <<n, s1, s2, eu, a, p, q>>
Get(T, r, k) == IF r < 0 \/ k < 0 \/ k > r THEN 0 ELSE T[r + 1][k + 1]
Sum(f, lo, hi) == FoldLeft(LAMBDA x, y : x + y, 0, [i \in 1..(hi - lo + 1) |-> f[lo + i - 1]])
Pow(b, e) == FoldLeft(LAMBDA x, y : x * b, 1, [i \in 1..e |-> i])
Fact(m) == FoldLeft(LAMBDA x, y : x * y, 1, [i \in 1..m |-> i])
C(m, k) == IF k < 0 \/ k > m THEN 0 ELSE Fact(m) \div (Fact(k) * Fact(m - k))
Sgn(e) == IF e % 2 = 0 THEN 1 ELSE -1
Abs(x) == IF x < 0 THEN -x ELSE x

Init == n = 0 /\ s1 = <<<<1>>>> /\ s2 = <<<<1>>>> /\ eu = <<<<1>>>> /\ a = <<<<1>>>> /\ q \in 1..MaxQ /\ p \in 1..q
Row(T, E(_, _, _)) == Append(T, [i \in 1..(n + 2) |-> E(i - 1, Get(T, n, i - 2), Get(T, n, i - 1))])
Next == /\ n < MaxRow /\ n' = n + 1
        /\ s1' = Row(s1, LAMBDA k, x, y : x - n * y)
        /\ s2' = Row(s2, LAMBDA k, x, y : x + k * y)
        /\ eu' = Row(eu, LAMBDA k, x, y : (k + 1) * y + (n + 1 - k) * x)
        /\ a' = Row(a, LAMBDA k, x, y : p * x + (q * n - p * k) * y)
        /\ UNCHANGED <<p, q>>
Spec == Init /\ [][Next]_vars

\* permutations by cycles and by ascents
CountPermutations == /\ Sum([k \in 0..n |-> Abs(Get(s1, n, k))], 0, n) = Fact(n)
                     /\ Sum([k \in 0..n |-> Get(eu, n, k)], 0, n) = Fact(n)
EulerSymmetry == n > 0 => \A k \in 0..(n - 1) : Get(eu, n, k) = Get(eu, n, n - 1 - k)
EulerExplicit == \A k \in 0..n : (n > 0 /\ n <= 5) => Get(eu, n, k) = Sum([i \in 0..(k + 1) |-> Sgn(i) * C(n + 1, i) * Pow(k + 1 - i, n)], 0, k + 1)
SecondExplicit == n <= 5 => \A k \in 0..n : Get(s2, n, k) * Fact(k) = Sum([i \in 0..k |-> Sgn(i) * C(k, i) * Pow(k - i, n)], 0, k)
Orthogonal == \A k \in 0..n : Sum([j \in 0..n |-> Get(s1, n, j) * Get(s2, j, k)], 0, n) = (IF n = k THEN 1 ELSE 0)
\* all coefficients are positive, and are the alternating sum of the definition
GumbelPositive == \A k \in 1..n : Get(a, n, k) >= 0 /\ (p < q => Get(a, n, k) > 0)
GumbelDefinition == n <= 5 => \A k \in 0..n : Get(a, n, k) = Sgn(n - k) * Sum([j \in 0..n |-> Pow(p, j) * Pow(q, n - j) * Get(s1, n, j) * Get(s2, j, k)], 0, n)
\* Sibuya sums: a sum of k + 1 terms is a sum of k terms and one more
SibuyaConvolution == n <= 5 => \A k \in 0..(n - 1) : Get(a, n, k + 1) * (k + 1) = Sum([y \in 0..n |-> C(n, y) * Get(a, y, k) * Get(a, n - y, 1)], 0, n)
\* Sibuya sums as alternating sums of binomials:  a[n, k] k! = sum_j C(k, j) (-1)^(n - j) prod_i (p j - q i)
Fall(j, m) == FoldLeft(LAMBDA x, i : x * (p * j - q * (i - 1)), 1, [i \in 1..m |-> i])
SibuyaDefinition == n <= 5 => \A k \in 1..n : Get(a, n, k) * Fact(k) = Sum([j \in 0..k |-> C(k, j) * Sgn(n - j) * Fall(j, n)], 0, k)
\* the sign of a falling factorial: alternates with the number of negative factors
Ceil(x, y) == -((-x) \div y)
FallSign == n <= 5 => \A j \in 1..n : LET f == Fall(j, n) * Sgn(n - j) IN
              IF p < q THEN (IF (p * j) % q = 0 THEN f = 0 ELSE (f > 0) = (Sgn(j - Ceil(p * j, q)) = 1) /\ f # 0)
              ELSE (f # 0) = (j = n)
===========================================================================
