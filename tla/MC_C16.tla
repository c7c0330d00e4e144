------------------------------- MODULE MC_C16 -------------------------------
(***************************************************************************)
(* Design model of the parametric bootstrap.  A parent process fits the    *)
(* copula, then hands R replicates to W workers (W = 0: it does them       *)
(* itself).  A worker starts with a copy of the parent's random stream; a  *)
(* replicate given a seed draws from the stream that seed starts.  In      *)
(* every schedule each replicate is drawn, given the ties, fitted and      *)
(* evaluated once, no two replicates draw the same sample, and the p-value *)
(* does not depend on the order in which they finish.                      *)
(*                                                                         *)
(* SeedEach = FALSE is the design in which workers go on with the copied   *)
(* stream; DistinctDraws fails for it with two workers.                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS R, MaxW, SeedEach
VARIABLES w,        \* number of workers
          stream,   \* position of each process in the random stream: 0 is the parent
          stage,    \* stage of each replicate
          by,       \* the process working on each replicate
          drawn,    \* the sample each replicate drew
          order     \* replicates in order of completion
vars == <<w, stream, stage, by, drawn, order>>
Procs == IF w = 0 THEN {0} ELSE 1..w
Init == /\ w \in 0..MaxW
        /\ stream = [p \in 0..MaxW |-> 0]
        /\ stage = [r \in 1..R |-> "todo"]
        /\ by = [r \in 1..R |-> -1]
        /\ drawn = [r \in 1..R |-> <<>>]
        /\ order = <<>>
Busy(p) == \E r \in 1..R : by[r] = p /\ stage[r] \notin {"todo", "done"}
Take(p, r) == /\ stage[r] = "todo" /\ ~Busy(p)
              /\ (w = 0 => \A q \in 1..(r - 1) : stage[q] = "done")
              /\ by' = [by EXCEPT ![r] = p] /\ stage' = [stage EXCEPT ![r] = "taken"]
              /\ UNCHANGED <<w, stream, drawn, order>>
\* the sample is named by where it comes from
Draw(r) == /\ stage[r] = "taken"
           /\ LET p == by[r] IN
              /\ drawn' = [drawn EXCEPT ![r] = IF SeedEach /\ w > 0 THEN <<"seed", r>> ELSE <<"stream", stream[p]>>]
              /\ stream' = [stream EXCEPT ![p] = @ + 1]
           /\ stage' = [stage EXCEPT ![r] = "drawn"] /\ UNCHANGED <<w, by, order>>
Step(r) == /\ stage[r] \in {"drawn", "tied", "fitted"}
           /\ stage' = [stage EXCEPT ![r] = CASE @ = "drawn" -> "tied" [] @ = "tied" -> "fitted" [] @ = "fitted" -> "done"]
           /\ order' = IF stage[r] = "fitted" THEN Append(order, r) ELSE order
           /\ UNCHANGED <<w, stream, by, drawn>>
Next == (\E p \in Procs : \E r \in 1..R : Take(p, r)) \/ (\E r \in 1..R : Draw(r) \/ Step(r))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

DistinctDraws == \A r, s \in 1..R : (r # s /\ drawn[r] # <<>> /\ drawn[s] # <<>>) => drawn[r] # drawn[s]
Once == \A r \in 1..R : Cardinality({i \in 1..Len(order) : order[i] = r}) = (IF stage[r] = "done" THEN 1 ELSE 0)
\* a statistic per replicate; the p-value counts those at least as large, whatever the order
T(r) == r % 3
Count(o) == Cardinality({i \in 1..Len(o) : T(o[i]) >= 1})
OrderFree == Len(order) = R => Count(order) = Cardinality({r \in 1..R : T(r) >= 1})
AllDone == <>(Len(order) = R)

(* the configurations to replay *)
Rules == {"average", "min", "max", "dense", "ordinal"}
Configs == [fam : {"clayton", "frank", "gumbel", "gaussian", "indep"}, tied : BOOLEAN, ties : Rules, fitties : Rules, many : BOOLEAN]
Emit == (order = <<>> /\ w = 0 /\ \A r \in 1..R : stage[r] = "todo") => \A c \in Configs : PrintT("GEN " \o ToJson(c))
=============================================================================
