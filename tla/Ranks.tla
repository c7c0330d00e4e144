-------------------------------- MODULE Ranks --------------------------------
(***************************************************************************)
(* Ranks of the entries of a sequence x under an order LT(a, b), for the   *)
(* five tie rules.  Ranks are doubled (average ranks are half-integers).   *)
(***************************************************************************)
EXTENDS Num, FiniteSets

TieRules == {"average", "min", "max", "dense", "ordinal"}

Rank2(x, i, rule, LT(_, _)) ==
  LET Below == {j \in 1..Len(x) : LT(x[j], x[i])}
      Level == {j \in 1..Len(x) : ~LT(x[j], x[i]) /\ ~LT(x[i], x[j])}
      \* one representative per distinct smaller value
      FirstBelow == {j \in Below : \A k \in Below : k < j => (LT(x[k], x[j]) \/ LT(x[j], x[k]))}
  IN CASE rule = "average" -> 2 * Cardinality(Below) + Cardinality(Level) + 1
       [] rule = "min"     -> 2 * Cardinality(Below) + 2
       [] rule = "max"     -> 2 * (Cardinality(Below) + Cardinality(Level))
       [] rule = "dense"   -> 2 * Cardinality(FirstBelow) + 2
       [] rule = "ordinal" -> 2 * (Cardinality(Below) + Cardinality({j \in Level : j <= i}))

\* the same for sequences of reals, in a form that is fast to evaluate:
\* counts come from one pass over the sequence per entry
RRank2(x, i, rule) == Rank2(x, i, rule, FLt)

\* doubled ranks of a whole sequence
RRanks2(x, rule) == [i \in 1..Len(x) |-> RRank2(x, i, rule)]
IRanks2(x, rule) == [i \in 1..Len(x) |-> Rank2(x, i, rule, <)]

\* pseudo-observations of a column of reals
PseudoObs(x, rule) ==
  [i \in 1..Len(x) |-> FDiv(FDiv(FInt(RRank2(x, i, rule)), FInt(2)), FInt(Len(x) + 1))]
==============================================================================
