------------------------------ MODULE MC_C19b ------------------------------
(* Life of a mixture copula: parameters come from the constructor, an       *)
(* assignment or a fit; answers need parameters; a refused request changes  *)
(* nothing.                                                                 *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Depth
VARIABLES has, ver, hist, out

Good == {"fit_pem", "fit_kmeans", "fit_sgd", "fit_from", "assign"}
Bad == {"bad_method", "bad_criteria", "bad_start", "bad_data"}
Ask == {"pdf", "cdf", "random"}
Init == has = FALSE /\ ver = 0 /\ hist = <<>> /\ out = "ok"
Next == Len(hist) < Depth /\ \E op \in Good \cup Bad \cup Ask \cup {"forget"} :
  /\ hist' = Append(hist, op)
  /\ has' = (IF op \in Good THEN TRUE ELSE IF op = "forget" THEN FALSE ELSE has)
  /\ ver' = (IF op \in Good \cup {"forget"} THEN ver + 1 ELSE ver)
  /\ out' = (IF op \in Bad THEN "refused" ELSE IF op \in Ask /\ ~has THEN "not fitted" ELSE "ok")
vars == <<has, ver, hist, out>>
Spec == Init /\ [][Next]_vars
AnswersNeedParameters == (out = "not fitted") => ~has
RefusalChangesNothing == [][out' \in {"refused", "not fitted"} => has' = has /\ ver' = ver]_vars
Emit == (Len(hist) = Depth /\ \E i \in 1..Depth : hist[i] \in Ask \cup Bad) => PrintT("GEN " \o ToJson([kind |-> "life", hist |-> hist]))
===========================================================================
