------------------------------ MODULE MC_C19 ------------------------------
(***************************************************************************)
(* Design machine of the expectation-maximisation loop: at every step a    *)
(* pair of log-likelihoods (of the mixture and of the mixture copula) is   *)
(* recorded for the parameters of that step; the loop stops by its         *)
(* criterion or its limit, and keeps its best iterate as it goes.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Values, Limits
VARIABLES crit, limit, gmm, gmcm, best, status

vars == <<crit, limit, gmm, gmcm, best, status>>
N == Len(gmm)
Abs(x) == IF x < 0 THEN -x ELSE x
Delta(c, g, h, k) == Abs(CASE c = "GMCM" -> h[k] - h[k - 1] [] c = "GMM" -> g[k] - g[k - 1] [] c = "LI" -> g[k] - h[k - 1])
Met(g, h) == Delta(crit, g, h, Len(g)) = 0        \* below any eps in (0, 1) for integer likelihoods
Init == /\ crit \in {"GMCM", "GMM", "LI"} /\ limit \in Limits /\ \E a, b \in Values : gmm = <<a>> /\ gmcm = <<b>>
        /\ best = 1 /\ status = "run"
Stop == status = "run" /\ N = limit + 1 /\ status' = "limit" /\ UNCHANGED <<crit, limit, gmm, gmcm, best>>
Step == /\ status = "run" /\ N <= limit
        /\ \E a, b \in Values :
             /\ gmm' = Append(gmm, a) /\ gmcm' = Append(gmcm, b)
             /\ best' = IF crit = "GMM" \/ b > gmcm[best] THEN N + 1 ELSE best
             /\ status' = IF Delta(crit, gmm', gmcm', N + 1) = 0 THEN "converged" ELSE "run"
        /\ UNCHANGED <<crit, limit>>
Next == Stop \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

KeepsTheBest == crit # "GMM" => \A k \in 1..N : gmcm[k] <= gmcm[best]
KeepsTheLast == crit = "GMM" => best = N
StopsInTime == status # "run" => (status = "converged" <=> (N > 1 /\ Met(gmm, gmcm))) \/ status = "limit"
NeverPastTheRule == \A k \in 2..(N - 1) : Delta(crit, gmm, gmcm, k) # 0
WithinLimit == N <= limit + 1
Ends == <>(status # "run")
Emit == (status # "run" /\ limit = 2) => PrintT("GEN " \o ToJson([kind |-> "loop", crit |-> crit, gmm |-> gmm, gmcm |-> gmcm, converged |-> status = "converged"]))
===========================================================================
