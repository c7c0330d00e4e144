------------------------------ MODULE MC_C22b ------------------------------
(***************************************************************************)
(* Writes of the parameter of a copula interleaved with reads of its       *)
(* measures: a measure shows the parameter last accepted, whatever was     *)
(* read or refused before, and evaluating a measure at another parameter   *)
(* does not write it.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES fam, cur, shown, hist

Fams == {"clayton", "frank", "gumbel", "gaussian2", "gaussian3", "student2", "student3"}
Good == {"low", "mid", "high"}
Refused == {"refused"}
\* evaluations at a value that is not the parameter of the copula
Elsewhere == {"inverse", "derivative"}
Steps == Good \cup Refused \cup Elsewhere \cup {"fit"}
Init == fam \in Fams /\ cur = "mid" /\ shown = "mid" /\ hist = <<>>
Step(s) == /\ hist' = Append(hist, s) /\ fam' = fam
           /\ cur' = IF s \in Good THEN s ELSE IF s = "fit" THEN "fitted" ELSE cur
           /\ shown' = cur'
Next == Len(hist) < Depth /\ \E s \in Steps : (s = "fit" => Len(hist) = 1) /\ Step(s)
Spec == Init /\ [][Next]_<<fam, cur, shown, hist>>
ShowsTheParameter == shown = cur
OnlyWritesChange == [][hist'[Len(hist')] \in Refused \cup Elsewhere => cur' = cur]_<<fam, cur, shown, hist>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson([fam |-> fam, steps |-> hist]))
=============================================================================
