------------------------------- MODULE MC_C01 -------------------------------
(***************************************************************************)
(* Design model of ranking: the data column x is changed by strictly       *)
(* monotone re-labelling of its levels and by swapping rows; the ranks     *)
(* must follow.  Every column of length <= N over N levels is visited and  *)
(* emitted for replay.                                                     *)
(***************************************************************************)
EXTENDS Ranks, TLC, Json
CONSTANTS N
VARIABLES x, act

Cols == UNION {[1..n -> 1..n] : n \in 1..N}
Init == x \in Cols /\ act = "init"

Swap(a, b, y) == [y EXCEPT ![a] = y[b], ![b] = y[a]]
SwapRows == \E a \in 1..(Len(x) - 1) : x' = Swap(a, a + 1, x) /\ act' = "swap"
\* close the gaps between the levels: a strictly increasing re-labelling
Relabel == /\ x' = [i \in 1..Len(x) |-> Cardinality({x[j] : j \in {k \in 1..Len(x) : x[k] <= x[i]}})]
           /\ act' = "relabel"
Next == SwapRows \/ Relabel
Spec == Init /\ [][Next]_<<x, act>>

R(rule) == IRanks2(x, rule)
n == Len(x)
SumSeq(s) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE s[k] + S(k - 1) IN S(Len(s))

\* relations between the tie rules that hold for every column
MeanOfMinMax == \A i \in 1..n : R("min")[i] + R("max")[i] = 2 * R("average")[i]
Ordered      == \A i \in 1..n : R("dense")[i] <= R("min")[i] /\ R("min")[i] <= R("ordinal")[i] /\ R("ordinal")[i] <= R("max")[i]
OrdinalPerm  == {R("ordinal")[i] : i \in 1..n} = {2 * k : k \in 1..n}
SumAverage   == SumSeq(R("average")) = n * (n + 1)
InUnit       == \A rule \in TieRules : \A i \in 1..n : R(rule)[i] >= 2 /\ R(rule)[i] <= 2 * n
OrderKept    == \A rule \in TieRules : \A i, j \in 1..n : x[i] < x[j] => R(rule)[i] < R(rule)[j]
TiesShare    == \A rule \in TieRules \ {"ordinal"} : \A i, j \in 1..n : x[i] = x[j] => R(rule)[i] = R(rule)[j]

RelabelKeepsRanks == [][act' = "relabel" => \A rule \in TieRules : IRanks2(x', rule) = IRanks2(x, rule)]_<<x, act>>
SwapMovesRanks ==
  [][act' = "swap" => \A rule \in TieRules \ {"ordinal"} :
        \E a \in 1..(n - 1) : x' = Swap(a, a + 1, x) /\ IRanks2(x', rule) = Swap(a, a + 1, IRanks2(x, rule))]_<<x, act>>

Emit == act = "init" => PrintT("GEN " \o ToJson(x))
==============================================================================
