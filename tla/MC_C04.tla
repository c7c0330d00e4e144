------------------------------- MODULE MC_C04 -------------------------------
(***************************************************************************)
(* Design model of the log-likelihood: a data table of small integers is   *)
(* changed by swapping rows and by strictly increasing re-labelling of a   *)
(* column.  The log-likelihood (built from pseudo-observations) must not   *)
(* move, except that ordinal ranks may break ties by row order.            *)
(***************************************************************************)
EXTENDS Likelihood, TLC, Json
CONSTANTS N, K
VARIABLES data, ties, act

Init == /\ \E n \in 1..N : data \in [1..n -> [1..2 -> 1..K]]
        /\ ties \in TieRules /\ act = "init"
n == Len(data)
Swap(a, b, y) == [y EXCEPT ![a] = y[b], ![b] = y[a]]
SwapRows == \E a \in 1..(n - 1) : data' = Swap(a, a + 1, data) /\ act' = "swap"
Stretch == \E j \in 1..2 : data' = [i \in 1..n |-> [data[i] EXCEPT ![j] = @ * @ + 3]] /\ act' = "stretch"
Next == act = "init" /\ (SwapRows \/ Stretch) /\ ties' = ties
Spec == Init /\ [][Next]_<<data, ties, act>>

Cs == <<[fam |-> "clayton", d |-> 2, par |-> <<2>>], [fam |-> "frank", d |-> 2, par |-> <<-3>>],
        [fam |-> "gaussian", d |-> 2, par |-> <<Half>>]>>
LL(k, x) == LogLik(Cs[k], x, ties, TRUE)
NoTies(x) == \A j \in 1..2 : \A i, m \in 1..Len(x) : i # m => x[i][j] # x[m][j]
OrderFree == [][(act' = "swap" /\ (ties # "ordinal" \/ NoTies(data)) /\ data' # data)
                  => \A k \in 1..3 : FClose(LL(k, data'), LL(k, data), 0, Fl("1e-10"))]_<<data, ties, act>>
RanksOnly == [][(act' = "stretch") => \A k \in 1..3 : FEq(LL(k, data'), LL(k, data))]_<<data, ties, act>>
\* pseudo-observations are interior for every rule
Interior == \A i \in 1..n : \A j \in 1..2 : LET p == PobsRows(data, ties)[i][j] IN (0 \prec p) /\ (p \prec 1)
Emit == act = "init" => PrintT("GEN " \o ToJson([data |-> data, ties |-> ties]))
=============================================================================
