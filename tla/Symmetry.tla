------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* Cramer-von Mises statistics of the exchangeability and radial symmetry  *)
(* tests, on doubled ranks: column j of the sample is given as doubled     *)
(* ranks R[j], so that the pseudo-observation is R[j][i] / (2 (n + 1)).    *)
(* All comparisons are between integers.                                   *)
(***************************************************************************)
EXTENDS Reals, Ranks, TLC

\* a sequence with its elements evaluated once
Eager(s) == FoldLeft(LAMBDA acc, x : Append(acc, x), <<>>, s)
ISum(n, F(_)) == FoldLeft(LAMBDA acc, i : acc + F(i), 0, [i \in 1..n |-> i])
\* number of points at or below (p/q, s/q)
CountBelow(R, p, s, q) ==
  LET n == Len(R[1]) t == 2 * (n + 1)
  IN ISum(n, LAMBDA i : IF R[1][i] * q <= p * t /\ R[2][i] * q <= s * t THEN 1 ELSE 0)
\* on the data points
ExchOnData(R) ==
  LET n == Len(R[1])
      D(k) == ISum(n, LAMBDA i : (IF R[1][i] <= R[1][k] /\ R[2][i] <= R[2][k] THEN 1 ELSE 0)
                               - (IF R[1][i] <= R[2][k] /\ R[2][i] <= R[1][k] THEN 1 ELSE 0))
  IN FInt(ISum(n, LAMBDA k : D(k) * D(k))) // FInt(n * n)
\* the regular grid with m points per side: m equally spaced values from 1/m to 1 - 1/m, as numerators over GridDen(m)
GridDen(m) == IF m = 1 THEN 1 ELSE m * (m - 1)
GridNum(m, i) == IF m = 1 THEN 1 ELSE (m - 1) + ((i - 1) * (m - 2))
ExchOnGrid(R, m) ==
  LET n == Len(R[1]) q == GridDen(m)
      T == Eager([a \in 1..m |-> Eager([b \in 1..m |-> CountBelow(R, GridNum(m, a), GridNum(m, b), q)])])
  IN FInt(ISum(m, LAMBDA a : ISum(m, LAMBDA b : (T[a][b] - T[b][a]) * (T[a][b] - T[b][a])))) // FInt(n * m * m)
\* no grid value meets an observation (there the floating grid decides by rounding)
GridClear(R, m) == \A j \in 1..2 : \A i \in 1..Len(R[1]) : \A a \in 1..m : R[j][i] * GridDen(m) # GridNum(m, a) * 2 * (Len(R[1]) + 1)
ExchStat(R, m) == IF m = 0 THEN ExchOnData(R) ELSE ExchOnGrid(R, m)

RadialStat(R) ==
  LET d == Len(R) n == Len(R[1]) t == 2 * (n + 1)
      D(k) == ISum(n, LAMBDA i : (IF \A j \in 1..d : R[j][i] <= R[j][k] THEN 1 ELSE 0)
                               - (IF \A j \in 1..d : t - R[j][i] <= R[j][k] THEN 1 ELSE 0))
  IN FInt(ISum(n, LAMBDA k : D(k) * D(k))) // FInt(n * n)

\* the same with 1 - u evaluated in floating point, where it may miss its mirror image on the lattice by a rounding error
RadialStatRounded(R) ==
  LET d == Len(R) n == Len(R[1])
      U == Eager([j \in 1..d |-> Eager([i \in 1..n |-> FDiv(FDiv(FInt(R[j][i]), FInt(2)), FInt(n + 1))])])
      V == Eager([j \in 1..d |-> Eager([i \in 1..n |-> 1 -- U[j][i]])])
      D(k) == ISum(n, LAMBDA i : (IF \A j \in 1..d : R[j][i] <= R[j][k] THEN 1 ELSE 0)
                               - (IF \A j \in 1..d : V[j][i] \preceq U[j][k] THEN 1 ELSE 0))
  IN FInt(ISum(n, LAMBDA k : D(k) * D(k))) // FInt(n * n)

(***************************************************************************)
(* Multiplier replicates of the exchangeability statistic for data without *)
(* ties, from independent standard normal multipliers z.                   *)
(***************************************************************************)
MultiplierReplicates(R, m, Z) ==
  LET n == Len(R[1])
      U == Eager([j \in 1..2 |-> Eager([i \in 1..n |-> FInt(R[j][i]) // (2 * (n + 1))])])
      G == Eager(IF m = 0 THEN [i \in 1..n |-> <<U[1][i], U[2][i]>>]
           ELSE [p \in 1..(m * m) |-> <<GridNum(m, 1 + ((p - 1) % m)) // GridDen(m), GridNum(m, 1 + ((p - 1) \div m)) // GridDen(m)>>])
      h == 1 // FSqrt(FInt(n))
      C(x, y) == FInt(ISum(n, LAMBDA i : IF (U[1][i] \preceq x) /\ (U[2][i] \preceq y) THEN 1 ELSE 0)) // n
      Clamp(x) == IF x \prec h THEN h ELSE IF (1 -- h) \prec x THEN 1 -- h ELSE x
      D1(x, y) == LET c == Clamp(x) IN (C(c ++ h, y) -- C(c -- h, y)) // (2 ** h)
      D2(x, y) == LET c == Clamp(y) IN (C(x, c ++ h) -- C(x, c -- h)) // (2 ** h)
      B(c) == IF c THEN Fl("1") ELSE Fl("0")
      Influence(g) == LET x == g[1] y == g[2] a == D1(x, y) b == D2(x, y) c == D1(y, x) e == D2(y, x)
            One(i) == LET ux == B(U[1][i] \preceq x) vy == B(U[2][i] \preceq y) uy == B(U[1][i] \preceq y) vx == B(U[2][i] \preceq x)
                      IN FSum(<<ux ** vy, FNeg(a ** ux), FNeg(b ** vy), FNeg(uy ** vx), c ** uy, e ** vx>>) // FSqrt(FInt(n))
        IN Eager([i \in 1..n |-> One(i)])
      II == Eager([g \in 1..Len(G) |-> Influence(G[g])])
  IN [k \in 1..Len(Z) |-> LET mu == FSum(Z[k]) // n zc == Eager([i \in 1..n |-> Z[k][i] -- mu])
                          IN FSum([g \in 1..Len(G) |-> Sq(FDot(zc, II[g]))]) // Len(G)]

(***************************************************************************)
(* Bootstrap replicates: every observation is kept or turned (exchanged,   *)
(* or reflected) by the toss of a fair coin; when the sample has ties, the *)
(* result is given the same tie pattern, column by column.  The replicate  *)
(* statistic is that of the average ranks of the result.  The order that   *)
(* sorting gives equal values is free, and decides how the other columns   *)
(* are carried along: a toss has a set of outcomes, each a bag of rows     *)
(* (written as the sorted sequence of them).                               *)
(***************************************************************************)
HasTies(R) == \E j \in 1..Len(R) : \E a, b \in 1..Len(R[1]) : a # b /\ R[j][a] = R[j][b]
ColsOf(rows) == Eager([j \in 1..Len(rows[1]) |-> Eager([i \in 1..Len(rows) |-> rows[i][j]])])
RowsOf(R) == Eager([i \in 1..Len(R[1]) |-> Eager([j \in 1..Len(R) |-> R[j][i]])])
RowLess(a, b) == \E k \in 1..Len(a) : a[k] < b[k] /\ \A l \in 1..(k - 1) : a[l] = b[l]
AsBag(rows) == SortSeq(rows, RowLess)
SortedBy(rows, c) == SortSeq(rows, LAMBDA a, b : a[c] < b[c])
\* the position whose value the j-th smallest takes: the middle of its tie group in the sample
TiePositions(col) ==
  LET n == Len(col)
      sorted == SortedBy([i \in 1..n |-> <<col[i]>>], 1)
      x == Eager([i \in 1..n |-> sorted[i][1]])
      r == Eager(IRanks2(x, "average"))
  IN Eager([j \in 1..n |-> r[j] \div 2])
\* rows t[p..q] agree in column c, which takes the values v[p..q], in any order of the rows
Fills(t, v, c, p, q) ==
  LET k == q - p + 1
      Put(r, x) == [j \in 1..Len(r) |-> IF j = c THEN x ELSE r[j]]
  IN IF \/ \A i \in p..q : v[i] = v[p]
        \/ \A i \in p..q : t[i] = t[p]
     THEN {[i \in 1..k |-> Put(t[p + i - 1], v[p + i - 1])]}
     ELSE {AsBag([i \in 1..k |-> Put(t[p + pi[i] - 1], v[p + i - 1])]) : pi \in Permutations(1..k)}
CarryOne(rows, c, P) ==
  LET n == Len(rows)
      t == SortedBy(rows, c)
      v == Eager([j \in 1..n |-> t[P[j]][c]])
      Starts == Eager(SelectSeq([i \in 1..n |-> i], LAMBDA i : i = 1 \/ t[i][c] # t[i - 1][c]))
      End(g) == IF g = Len(Starts) THEN n ELSE Starts[g + 1] - 1
      All == FoldLeft(LAMBDA acc, g : {o \o x : o \in acc, x \in Fills(t, v, c, Starts[g], End(g))}, {<<>>}, [g \in 1..Len(Starts) |-> g])
  IN {AsBag(o) : o \in All}
Carry(rows, P) == FoldLeft(LAMBDA acc, c : UNION {CarryOne(o, c, P[c]) : o \in acc}, {AsBag(rows)}, [c \in 1..Len(P) |-> c])
Coin(k, i) == (k \div (2 ^ (i - 1))) % 2
Exchanged(r) == <<r[2], r[1]>>
Reflected(r, n) == [j \in 1..Len(r) |-> (2 * (n + 1)) - r[j]]
\* the sample after the k-th sequence of tosses, as rows of doubled ranks of the rule in force
TurnedRows(R, k, Turn(_)) == LET rows == RowsOf(R) IN Eager([i \in 1..Len(rows) |-> IF Coin(k, i) = 1 THEN Eager(Turn(rows[i])) ELSE rows[i]])
Outcomes(R, k, Turn(_)) ==
  LET V == TurnedRows(R, k, Turn)
  IN IF HasTies(R) THEN Carry(V, Eager([c \in 1..Len(R) |-> TiePositions(R[c])])) ELSE {AsBag(V)}
AverageRanks(o) == LET C == ColsOf(o) IN Eager([c \in 1..Len(C) |-> Eager(IRanks2(C[c], "average"))])
Replicates(R, k, Turn(_)) == {AverageRanks(o) : o \in Outcomes(R, k, Turn)}
\* the shares of the 2^n sequences of tosses whose statistic is at least s, whatever the order of equal values, and for some order
Shares(R, s, Turn(_), Stat(_)) ==
  LET n == Len(R[1])
      O == Eager([k \in 1..(2 ^ n) |-> Outcomes(R, k - 1, Turn)])
      A == TLCEval({o \in UNION {O[k] : k \in 1..(2 ^ n)} : s \preceq (Stat(AverageRanks(o)) ++ Fl("1e-9"))})
      Share(k) == FInt(k) // FInt(2 ^ n)
  IN <<Share(Cardinality({k \in 1..(2 ^ n) : O[k] \subseteq A})), Share(Cardinality({k \in 1..(2 ^ n) : O[k] \cap A # {}}))>>
ExchShares(R, m) == Shares(R, ExchStat(R, m), Exchanged, LAMBDA Q : ExchStat(Q, m))
RadialShares(R) == Shares(R, RadialStat(R), LAMBDA r : Reflected(r, Len(R[1])), RadialStat)
\* no average rank of n observations meets the grid
GridClearAlways(n, m) == \A k \in 2..(2 * n) : \A i \in 1..m : k * GridDen(m) # GridNum(m, i) * 2 * (n + 1)
=============================================================================
