------------------------------ MODULE MC_C25 ------------------------------
(***************************************************************************)
(* Design model of merging option dictionaries: dictionaries arrive one by *)
(* one and are merged into what is there.  Every sequence of up to N       *)
(* dictionaries of depth two over the keys is visited; the i-th dictionary *)
(* has the leaf value i, so that the origin of every value shows.          *)
(***************************************************************************)
EXTENDS Dicts, TLC, Json, FiniteSets
CONSTANTS N, Keys
VARIABLES given, acc

Flat(i) == {Dict(m) : m \in UNION {[S -> {Leaf(i)}] : S \in SUBSET Keys}}
Deep(i) == {Dict(m) : m \in UNION {[S -> {Leaf(i)} \cup Flat(i)] : S \in SUBSET Keys}}
Init == \E d \in Deep(1) : given = <<d>> /\ acc = d
Arrive == Len(given) < N /\ \E d \in Deep(Len(given) + 1) : given' = Append(given, d) /\ acc' = Merge(acc, d)
Spec == Init /\ [][Arrive]_<<given, acc>>

Last == given[Len(given)]
AsAWhole == acc = MergeAll(given)
LaterWins == \A p \in Paths(Last) : Has(acc, p) /\ (At(Last, p) # Dict(<<>>) => At(acc, p) = At(Last, p) \/ (IsDict(At(Last, p)) /\ DOMAIN At(Last, p).m = {}))
KeysKept == DOMAIN acc.m = UNION {DOMAIN given[i].m : i \in 1..Len(given)}
Idempotent == Merge(acc, Last) = acc /\ Merge(acc, acc) = acc
Neutral == Merge(acc, Dict([k \in {} |-> 0])) = acc /\ Merge(Dict([k \in {} |-> 0]), acc) = acc
\* what the newcomer does not reach stays
Leaves(x) == {p \in Paths(x) : ~IsDict(At(x, p))}
Reaches(x, p) == \E q \in 1..Len(p) : LET pre == SubSeq(p, 1, q) IN Has(x, pre) /\ (q = Len(p) \/ ~IsDict(At(x, pre)))
RestKept == [][\A p \in Leaves(acc) : LET new == given'[Len(given')] IN Reaches(new, p) \/ (Has(acc', p) /\ At(acc', p) = At(acc, p))]_<<given, acc>>
Emit == PrintT("GEN " \o ToJson(given))
=============================================================================
