------------------------------- MODULE MC_C15 -------------------------------
(***************************************************************************)
(* Design model of the symmetry statistics: the pairs of a small bivariate *)
(* sample arrive in lexicographic order (the statistics do not see the     *)
(* order of rows).  Exchangeability: zero for samples that are symmetric   *)
(* in the two coordinates, unchanged by swapping them.  Radial symmetry:   *)
(* zero for samples symmetric about their centre, unchanged by reflection  *)
(* of sample whose ranks reflect, and by swapping coordinates.             *)
(***************************************************************************)
EXTENDS Symmetry, TLC, Json
CONSTANTS N, K
VARIABLES rows

Code(r) == (r[1] * (K + 1)) + r[2]
Init == rows = <<>>
Read == Len(rows) < N /\ \E r \in (1..K) \X (1..K) : (IF rows = <<>> THEN TRUE ELSE Code(rows[Len(rows)]) <= Code(r)) /\ rows' = Append(rows, r)
Spec == Init /\ [][Read]_rows
Full == Len(rows) = N

Times(r, s) == Cardinality({i \in 1..N : s[i] = r})
SameBag(s, t) == \A i \in 1..N : Times(s[i], s) = Times(s[i], t)
Swap(s) == [i \in 1..N |-> <<s[i][2], s[i][1]>>]
Flip(s) == [i \in 1..N |-> <<K + 1 - s[i][1], K + 1 - s[i][2]>>]
\* ranks of pseudo-observations: both columns on one scale
RR(s, t) == [j \in 1..2 |-> IRanks2([i \in 1..N |-> s[i][j]], t)]
Exchangeable == Full => \A t \in TieRules : \A m \in {0, 4} : LET e == ExchStat(RR(rows, t), m) IN
   /\ 0 \preceq e
   /\ (t # "ordinal" => FEq(e, ExchStat(RR(Swap(rows), t), m)))
   /\ ((t # "ordinal" /\ SameBag(rows, Swap(rows))) => FEq(e, 0))
Radial == Full => LET r == RadialStat(RR(rows, "average")) IN
   /\ 0 \preceq r
   /\ FEq(r, RadialStat(RR(Swap(rows), "average")))
   /\ (SameBag(rows, Flip(rows)) => FEq(r, 0))
\* replicates: no turned observation leaves the statistic, all of them reflected as well; ties are carried
Distinct(col) == Cardinality({col[i] : i \in 1..Len(col)})
ReplicatesKeepTies == Full => LET R == RR(rows, "average")
                                  Reflect(r) == Reflected(r, N) IN
   /\ \A Q \in Replicates(R, 0, Exchanged) : FEq(ExchStat(Q, 0), ExchStat(R, 0))
   /\ \A Q \in Replicates(R, 0, Reflect) : FEq(RadialStat(Q), RadialStat(R))
   /\ (~HasTies(R) => \A Q \in Replicates(R, (2 ^ N) - 1, Reflect) : FEq(RadialStat(Q), RadialStat(R)))
   /\ \A k \in 0..((2 ^ N) - 1) : \A Q \in Replicates(R, k, Exchanged) \cup Replicates(R, k, Reflect) :
         \A c \in 1..2 : Distinct(Q[c]) <= Distinct(R[c])
Emit == Full => PrintT("GEN " \o ToJson([rows |-> rows]))
=============================================================================
