------------------------------ MODULE Bootstrap ------------------------------
(***************************************************************************)
(* The quantities of the parametric bootstrap goodness-of-fit test, on     *)
(* doubled integer ranks: a data set of n rows is a sequence of columns of *)
(* doubled ranks, and its pseudo-observations are R[j][i] / (2 (n + 1)).   *)
(***************************************************************************)
EXTENDS Reals, Ranks

Eager(s) == FoldLeft(LAMBDA acc, x : Append(acc, x), <<>>, s)
ColumnsOf(rows) == Eager([j \in 1..Len(rows[1]) |-> Eager([i \in 1..Len(rows) |-> rows[i][j]])])
RankColumns(rows, rule) == LET C == ColumnsOf(rows) IN Eager([j \in 1..Len(C) |-> Eager(RRanks2(C[j], rule))])
RankRows(rows, rule) == LET R == RankColumns(rows, rule) IN Eager([i \in 1..Len(rows) |-> Eager([j \in 1..Len(R) |-> R[j][i]])])
HasTies(rows) == LET C == ColumnsOf(rows) IN \E j \in 1..Len(C) : \E p, q \in 1..Len(rows) : p < q /\ FEq(C[j][p], C[j][q])

\* a bootstrap sample carries the tie pattern of the data: its j-th smallest value takes the rank of the j-th smallest value of the data
SortedInts(s) == SortSeq(s, LAMBDA a, b : a < b)
Pattern(rows, rule) == LET R == RankColumns(rows, rule) IN Eager([j \in 1..Len(R) |-> Eager(SortedInts(R[j]))])
\* ranks of the rows of a draw (without ties of its own) once the pattern S is imposed
Imposed(draw, S) == LET O == RankColumns(draw, "ordinal") IN Eager([i \in 1..Len(draw) |-> Eager([j \in 1..Len(O) |-> S[j][O[j][i] \div 2]])])

\* sum of squared differences between the empirical distribution function of the points and the values v
EmpCount(P, k) == Cardinality({i \in 1..Len(P) : \A j \in 1..Len(P[1]) : P[i][j] <= P[k][j]})
SnStatistic(P, v) == FSum([k \in 1..Len(P) |-> Sq((EmpCount(P, k) // Len(P)) -- v[k])])

PValue(k, reps) == (k ++ Half) // (reps + 1)
=============================================================================
