------------------------------- MODULE MC_C14 -------------------------------
(***************************************************************************)
(* Design model of correlation under missing values: the rows of a table   *)
(* arrive one by one, each with some of its entries missing.  For every    *)
(* pattern, method and policy the matrix is symmetric with unit diagonal   *)
(* and entries in [-1, 1]; the three policies use nested sets of rows, and *)
(* agree when nothing is missing; rank correlations ignore increasing      *)
(* transformations; and reversing a column reverses the sign.              *)
(***************************************************************************)
EXTENDS Correlation, TLC, Json
CONSTANTS N, D
VARIABLES miss

Values == << <<1, 2, 2, 3, 5, 4>>, <<2, 1, 3, 3, 4, 9>>, <<5, 4, 1, 1, 2, 0>> >>
Masks == [1..D -> {0, 1}]
Weight(m) == ISumOver(D, LAMBDA j : m[j] * (2 ^ j))
Init == miss = <<>>
Read == Len(miss) < N /\ \E m \in Masks : (IF miss = <<>> THEN TRUE ELSE Weight(miss[Len(miss)]) <= Weight(m)) /\ miss' = Append(miss, m)
Spec == Init /\ [][Read]_miss
Full == Len(miss) = N

Methods == {"pearson", "kendall", "spearman"}
Policies == {"everything", "complete", "pairwise.complete"}
Pairs == {p \in (1..D) \X (1..D) : p[1] # p[2]}
Rows(T(_)) == [i \in 1..N |-> [j \in 1..D |-> IF miss[i][j] = 1 THEN NaN ELSE T(Values[j][i])]]
Plain == Rows(LAMBDA x : FInt(x))
Cubed == Rows(LAMBDA x : FInt(x * x * x))
Turned == [i \in 1..N |-> [j \in 1..D |-> IF j = 1 THEN FNeg(Plain[i][j]) ELSE Plain[i][j]]]
Tol == Fl("1e-12")
Same(a, b) == FClose(a, b, 0, Tol)
SymmetricBounded ==
  Full => \A m \in Methods : \A u \in Policies : \A p \in Pairs : Defined(Plain, p[1], p[2], u) =>
    LET e == Entry(Plain, p[1], p[2], m, u)
    IN /\ Same(e, Entry(Plain, p[2], p[1], m, u))
       /\ (FIsNaN(e) \/ FAbs(e) \preceq (1 ++ Tol))
       /\ (FIsNaN(e) <=> (u = "everything" /\ \E i \in 1..N : miss[i][p[1]] = 1 \/ miss[i][p[2]] = 1))
RowsNest == Full => \A p \in Pairs :
  LET L(u) == Len(Used(Plain, p[1], p[2], u)) IN L("complete") <= L("pairwise.complete") /\ L("pairwise.complete") <= L("everything")
RanksOnly == Full => \A m \in {"kendall", "spearman"} : \A u \in Policies : \A p \in Pairs :
  Defined(Plain, p[1], p[2], u) => Same(Entry(Plain, p[1], p[2], m, u), Entry(Cubed, p[1], p[2], m, u))
SignTurns == Full => \A m \in Methods : \A u \in Policies : \A j \in 2..D :
  Defined(Plain, 1, j, u) => LET e == Entry(Plain, 1, j, m, u) IN FIsNaN(e) \/ Same(FNeg(e), Entry(Turned, 1, j, m, u))
Emit == Full => PrintT("GEN " \o ToJson([miss |-> miss]))
=============================================================================
