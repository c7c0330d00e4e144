------------------------------ MODULE MC_C18 ------------------------------
(***************************************************************************)
(* Design machine of a mixture parameter set and of a mixture copula that  *)
(* holds one.  Written values are represented by classes; a class is valid *)
(* or not, and the set keeps, per field, the class last accepted and a     *)
(* version number.  Conversions copy all three fields.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
VARIABLES set, cop, hist, n

GoodProb == {"interior", "edge", "onehot", "tuple"}
BadProb == {"negative", "above", "sum", "short", "long", "nan"}
GoodMeans == {"real", "ints", "fortran"}
BadMeans == {"rows", "cols", "flat", "transposed"}
GoodCovs == {"definite", "singular", "repairable", "lists", "tiny"}
BadCovs == {"asymmetric", "negative", "count", "dims", "nan", "flat"}
Op(o, c) == <<o, c>>
Writes == {Op("prob", c) : c \in GoodProb \cup BadProb} \cup {Op("means", c) : c \in GoodMeans \cup BadMeans} \cup {Op("covs", c) : c \in GoodCovs \cup BadCovs}
\* a new set from a dictionary or the constructor, good or with one bad field
News == {Op(o, c) : o \in {"new", "dict"}, c \in {"good", "bad_prob", "bad_means", "bad_covs"}} \cup {Op("dict", "incomplete")}
Conversions == {Op("vector", "round"), Op("vector", "short"), Op("vector", "long"), Op("iterate", "")}
Attach == {Op(o, c) : o \in {"assign", "create"}, c \in {"param", "dict", "vector", "other_clusters", "other_dim", "other_both", "swapped", "vector_short", "vector_long", "text", "none"}}
Ops == Writes \cup News \cup Conversions \cup Attach
Good(c) == c \in GoodProb \cup GoodMeans \cup GoodCovs \cup {"good", "round", "param", "dict", "vector", "none", ""}

Field(o) == o \in {"prob", "means", "covs"}
Init == set = [prob |-> <<0, "interior">>, means |-> <<0, "real">>, covs |-> <<0, "definite">>] /\ cop = <<>> /\ hist = <<>> /\ n = 0
Do(op) ==
  /\ hist' = Append(hist, op) /\ n' = n + 1
  /\ set' = IF ~Good(op[2]) THEN set
            ELSE IF Field(op[1]) THEN [set EXCEPT ![op[1]] = <<n', op[2]>>]
            ELSE IF op[1] \in {"new", "dict"} THEN [prob |-> <<n', "interior">>, means |-> <<n', "real">>, covs |-> <<n', "definite">>]
            ELSE set
  /\ cop' = IF ~Good(op[2]) THEN cop
            ELSE IF op[1] \in {"assign", "create"} THEN IF op[2] = "none" THEN <<>> ELSE <<set>>
            ELSE cop
Next == Len(hist) < Depth /\ \E op \in Ops : Do(op)
vars == <<set, cop, hist, n>>
Spec == Init /\ [][Next]_vars

ValidSet(s) == s.prob[2] \in GoodProb /\ s.means[2] \in GoodMeans /\ s.covs[2] \in GoodCovs
AlwaysValid == ValidSet(set) /\ \A i \in 1..Len(cop) : ValidSet(cop[i])
RefusalChangesNothing == [][~Good(hist'[Len(hist')][2]) => set' = set /\ cop' = cop]_vars
OneFieldAtATime == [][Field(hist'[Len(hist')][1]) => Cardinality({f \in DOMAIN set : set'[f] # set[f]}) <= 1]_vars
ConversionKeepsAll == [][hist'[Len(hist')][1] \in {"vector", "iterate"} => set' = set]_vars
CopulaHoldsTheSet == [][(hist'[Len(hist')][1] \in {"assign", "create"} /\ hist'[Len(hist')][2] \in {"param", "dict", "vector"}) => cop' = <<set>>]_vars
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
===========================================================================
