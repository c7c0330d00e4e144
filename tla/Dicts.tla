------------------------------- MODULE Dicts -------------------------------
(***************************************************************************)
(* Nested option dictionaries: a node is a leaf with a value or a          *)
(* dictionary from keys to nodes.  Merging keeps every key of both; where  *)
(* both have a dictionary these are merged, and otherwise the later wins.  *)
(***************************************************************************)
EXTENDS Sequences, Naturals
Leaf(v) == [t |-> "v", v |-> v]
Dict(m) == [t |-> "d", m |-> m]
IsDict(x) == x.t = "d"
RECURSIVE Merge(_, _)
Merge(a, b) ==
  IF IsDict(a) /\ IsDict(b)
  THEN Dict([k \in DOMAIN a.m \cup DOMAIN b.m |->
               IF k \notin DOMAIN b.m THEN a.m[k] ELSE IF k \notin DOMAIN a.m THEN b.m[k] ELSE Merge(a.m[k], b.m[k])])
  ELSE b
RECURSIVE MergeAll(_)
MergeAll(s) == IF Len(s) = 1 THEN s[1] ELSE Merge(MergeAll(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
\* recorded form: keys and children side by side
RECURSIVE Canon(_)
Canon(x) == IF x.t = "v" THEN Leaf(x.v)
            ELSE Dict([k \in {x.k[i] : i \in 1..Len(x.k)} |-> Canon(x.c[CHOOSE i \in 1..Len(x.k) : x.k[i] = k])])
\* the leaves and empty dictionaries, by path
RECURSIVE Paths(_)
Paths(x) == IF ~IsDict(x) THEN {<<>>}
            ELSE IF DOMAIN x.m = {} THEN {<<>>} ELSE UNION {{<<k>> \o p : p \in Paths(x.m[k])} : k \in DOMAIN x.m}
RECURSIVE At(_, _)
At(x, p) == IF p = <<>> THEN x ELSE At(x.m[Head(p)], Tail(p))
RECURSIVE Has(_, _)
Has(x, p) == p = <<>> \/ (IsDict(x) /\ Head(p) \in DOMAIN x.m /\ Has(x.m[Head(p)], Tail(p)))
=============================================================================
