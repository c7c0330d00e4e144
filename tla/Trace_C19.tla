----------------------------- MODULE Trace_C19 -----------------------------
(* Recorded life of a mixture copula.  State: the mixture g in force (or    *)
(* None), and for a session about expectation-maximisation the rows u of    *)
(* pseudo-observations and what is known of the iterates.                   *)
EXTENDS Replay, Mixture, Ranks

None == [w |-> <<>>, m |-> <<>>, s |-> <<>>]
TInit(s) == [g |-> s.init.g, u |-> <<>>, it |-> <<>>, gmcm |-> <<>>, gmm |-> <<>>, q |-> <<>>]
PobsOf(rows, ties) ==
  LET P == EagerSeq([j \in 1..Len(rows[1]) |-> EagerSeq(LET c == [i \in 1..Len(rows) |-> rows[i][j]] IN [i \in 1..Len(rows) |-> FInt(RRank2(c, i, ties)) // (2 * (Len(rows) + 1))])])
  IN EagerSeq([i \in 1..Len(rows) |-> EagerSeq([j \in 1..Len(rows[1]) |-> P[j][i]])])
TNext(st, ev) ==
  CASE ev.op \in {"assign", "fit", "kmeans", "em"} -> IF ev.res.k # "exc" THEN [st EXCEPT !.g = ev.now] ELSE st
    [] ev.op = "data" -> [st EXCEPT !.u = PobsOf(ev.rows, ev.ties), !.it = <<>>, !.gmcm = <<>>, !.gmm = <<>>, !.q = <<>>]
    [] ev.op = "iterate" /\ ev.res.k # "exc" ->
         LET q == QuantileRows(ev.now, st.u)
         IN [st EXCEPT !.it = Append(@, ev.now), !.gmcm = Append(@, ev.ll), !.q = q,
                       !.gmm = Append(@, GmmLogLik(ev.now, IF st.q = <<>> THEN q ELSE st.q))]
    [] OTHER -> st

Show(v) == ToString([i \in 1..Len(v) |-> FShow(v[i])])
Flat(g) == g.w \o FlattenSeq(g.m) \o FlattenSeq(FlattenSeq(g.s))
Equal(a, b, r, t) == LET x == Flat(a) y == Flat(b) IN Len(x) = Len(y) /\ \A i \in 1..Len(x) : FClose(x[i], y[i], r, t)
ValidMixture(g, m, d) ==
  /\ Len(g.w) = m /\ Len(g.m) = m /\ Len(g.s) = m
  /\ \A k \in 1..m : 0 \preceq g.w[k] /\ Len(g.m[k]) = d /\ Len(g.s[k]) = d /\ \A i \in 1..d : FIsFinite(g.m[k][i]) /\ Len(g.s[k][i]) = d /\ \A j \in 1..d : FIsFinite(g.s[k][i][j]) /\ FClose(g.s[k][i][j], g.s[k][j][i], Fl("1e-7"), Fl("1e-10"))
  /\ \A k \in 1..m : IsPosDef([i \in 1..d |-> [j \in 1..d |-> IF i = j THEN g.s[k][i][i] ++ Fl("1e-9") ELSE g.s[k][i][j]]])
  /\ FClose(FSum(g.w), 1, 0, Fl("1e-6"))

(* answers *)
ValueFailing(st, ev) ==
  IF st.g = None THEN (IF ev.res.k = "exc" /\ ev.res.e = "GMCNotFittedError" THEN {} ELSE {<<"not_fitted_error_without_parameters", ev.key \o " gave " \o ev.res.k \o " " \o ev.res.e>>})
  ELSE IF ev.op = "random" THEN (IF ev.res.k = "arr" /\ ev.res.shape = <<ev.n, Len(st.g.m[1])>> THEN {} ELSE {<<"draws_n_rows", ev.res.k \o ev.res.e>>})
  ELSE LET r == ev.res
           Want(x) == IF ev.op = "pdf" THEN MixPdf(st.g, x) ELSE MixCdf(st.g, x)
           tol == IF ev.op = "cdf" THEN (IF Len(st.g.m[1]) > 2 THEN Fl("3e-4") ELSE Fl("1e-8")) ELSE Fl("1e-300")
           rel == IF ev.op = "cdf" THEN 0 ELSE Fl("1e-8")
           Ok(x, v) == IF ev.log /\ ev.op = "pdf" THEN FClose(v, FLn(Want(x)), Fl("1e-9"), Fl("1e-8")) ELSE FClose(IF ev.log THEN FExp(v) ELSE v, Want(x), rel, tol)
       IN IF r.k \notin {"num", "arr"} \/ Len(r.v) # Len(ev.at) THEN {<<"one_value_per_point", ev.key \o " " \o r.k \o " " \o r.e>>}
          ELSE {<<"weighted_sum_of_components", ev.op \o " at " \o Show(ev.at[i]) \o " expected " \o FShow(Want(ev.at[i])) \o (IF ev.log THEN " (log)" ELSE "") \o " got " \o FShow(r.v[i])>> :
                  i \in {i \in 1..Len(ev.at) : ~Ok(ev.at[i], r.v[i])}}
(* fits *)
FitFailing(st, ev) ==
  IF ev.res.k = "exc" THEN
    (IF ev.what = "good" /\ ~(ev.res.e = "FitException") THEN {<<"fit_succeeds", ev.key \o " " \o ev.res.e>>} ELSE {})
    \cup (IF (ev.now = None /\ st.g = None) \/ (ev.now # None /\ st.g # None /\ Equal(ev.now, st.g, 0, 0)) THEN {} ELSE {<<"refusal_changes_nothing", ev.key>>})
  ELSE (IF ev.what = "good" THEN {} ELSE {<<"refuses_" \o ev.what, ev.key>>})
  \cup (IF ev.now # None /\ ValidMixture(ev.now, ev.m, ev.d) THEN {} ELSE {<<"ends_with_valid_parameters", ev.key \o Show(Flat(ev.now))>>})
  \cup (IF ev.rep # None /\ Equal(ev.now, ev.rep, 0, 0) THEN {} ELSE {<<"copula_holds_the_fitted_parameters", ev.key>>})
LlTol(v) == Fl("0.02") ++ (Fl("2e-3") ** FAbs(v))
\* gradient descent never ends below its start, and reports the value it reached
DescentFailing(st, ev) ==
  IF ev.res.k = "exc" \/ ev.x0 = None THEN {}
  ELSE LET U == PobsOf(ev.rows, ev.ties)
           a == CopulaLogLik(ev.x0, QuantileRows(ev.x0, U)) b == CopulaLogLik(ev.now, QuantileRows(ev.now, U))
       IN (IF (a -- LlTol(a)) \preceq b THEN {} ELSE {<<"descent_does_not_end_below_its_start", FShow(a) \o " -> " \o FShow(b)>>})
          \cup (IF FClose(FNeg(ev.ll), b, 0, LlTol(b)) THEN {} ELSE {<<"descent_reports_the_value_it_reached", FShow(FNeg(ev.ll)) \o " is " \o FShow(b)>>})
\* the groups are a partition of the data: counts, sums and sums of squares add up
KmeansFailing(st, ev) ==
  FitFailing(st, ev) \cup
  IF ev.res.k = "exc" THEN {} ELSE
  LET n == Len(ev.rows) g == ev.now d == Len(ev.rows[1])
      N(k) == g.w[k] ** n
      Col(j) == FSum([i \in 1..n |-> ev.rows[i][j]])
      Sq2(a, b) == FDot([i \in 1..n |-> ev.rows[i][a]], [i \in 1..n |-> ev.rows[i][b]])
      scale == 1 ++ FSum([j \in 1..d |-> Sq2(j, j)])
  IN (IF \A k \in 1..ev.m : FClose(N(k), FFloor(N(k) ++ Half), 0, Fl("1e-6")) /\ 1 \preceq (N(k) ++ Fl("1e-6")) THEN {} ELSE {<<"group_weights_are_shares_of_the_data", Show(g.w)>>})
     \cup {<<"group_means_add_up", "column " \o ToString(j)>> : j \in {j \in 1..d : ~FClose(SumOver(ev.m, LAMBDA k : N(k) ** g.m[k][j]), Col(j), 0, Fl("1e-9") ** scale)}}
     \cup {<<"group_covariances_add_up", ToString(p)>> : p \in {p \in (1..d) \X (1..d) :
             ~FClose(SumOver(ev.m, LAMBDA k : ((N(k) -- 1) ** g.s[k][p[1]][p[2]]) ++ (N(k) ** (g.m[k][p[1]] ** g.m[k][p[2]]))), Sq2(p[1], p[2]), 0, Fl("1e-6") ** scale)}}
(* expectation-maximisation *)
StepClose(a, b) ==
  /\ \A k \in 1..Len(a.w) : FClose(a.w[k], b.w[k], 0, Fl("5e-3"))
  /\ \A k \in 1..Len(a.w) : \A j \in 1..Len(a.m[1]) : FClose(a.m[k][j], b.m[k][j], Fl("1e-2"), Fl("2e-2") ** (1 ++ Sd(a, k, j)))
  /\ \A k \in 1..Len(a.w) : \A i, j \in 1..Len(a.m[1]) : FClose(a.s[k][i][j], b.s[k][i][j], 0, Fl("3e-2") ** (1 ++ (Sd(a, k, i) ** Sd(a, k, j))))
\* whatever the groups, a step keeps the first two moments of the quantiles it was made from
MomentsKept(g, Q) ==
  LET n == Len(Q) d == Len(Q[1]) m == Len(g.w)
      Mean(j) == SumOver(n, LAMBDA i : Q[i][j]) // n
      Mom(a, b) == SumOver(n, LAMBDA i : Q[i][a] ** Q[i][b]) // n
      mu == EagerSeq([j \in 1..d |-> Mean(j)]) var == EagerSeq([j \in 1..d |-> Mom(j, j) -- (mu[j] ** mu[j])])
  IN /\ \A j \in 1..d : FClose(SumOver(m, LAMBDA k : g.w[k] ** g.m[k][j]), mu[j], 0, Fl("8e-3") ** (1 ++ FSqrt(var[j])))
     /\ \A j \in 1..d : FClose(SumOver(m, LAMBDA k : g.w[k] ** (g.s[k][j][j] ++ ((g.m[k][j] -- mu[j]) ** (g.m[k][j] -- mu[j])))), var[j], Fl("8e-3"), Fl("1e-4"))
IterFailing(st, ev) ==
  IF ev.res.k = "exc" THEN {<<"iteration_limit_is_respected", ev.key \o " " \o ev.res.e>>}
  ELSE LET q == QuantileRows(ev.now, st.u) want == CopulaLogLik(ev.now, q) IN
     (IF FClose(ev.ll, want, 0, LlTol(want)) THEN {} ELSE {<<"reports_the_likelihood_of_its_parameters", "expected " \o FShow(want) \o " got " \o FShow(ev.ll)>>})
     \cup (IF ev.conv THEN {<<"does_not_claim_convergence", ev.key>>} ELSE {})
     \cup (IF st.it = <<>> THEN (IF Equal(ev.now, ev.x0, Fl("1e-9"), Fl("1e-12")) THEN {} ELSE {<<"starts_from_the_given_parameters", Show(Flat(ev.now))>>})
           ELSE LET w == EmStep(st.it[Len(st.it)], st.q)
                IN (IF MomentsKept(ev.now, st.q) THEN {} ELSE {<<"a_step_keeps_mean_and_variance", Show(Flat(ev.now)) \o " expected " \o Show(Flat(w))>>}) \cup
                   IF StepClose(w, ev.now) THEN {} ELSE {<<"expectation_maximisation_step", "expected " \o Show(Flat(w)) \o " got " \o Show(Flat(ev.now))>>})
\* the step a run ended with, up to the accuracy to which the log-likelihoods are known
EmFailing(st, ev) ==
  IF ev.res.k = "exc" THEN {<<"fit_succeeds", ev.key \o " " \o ev.res.e>>}
  ELSE LET n == IMin(ev.limit, Len(st.it) - 1)
           slack == IF ev.crit = "GMCM" THEN Fl("1e-9") ELSE Fl("0.05")
           ch == EagerSeq([k \in 1..n |-> Change(ev.crit, st.gmm, st.gmcm, k + 1)])
           Maybe(k) == ch[k] \prec (ev.eps ++ slack)
           Surely(k) == ch[k] \prec (ev.eps -- slack)
           \* possible numbers of steps, with the claim of convergence
           Ends == {<<k, TRUE>> : k \in {k \in 1..n : Maybe(k) /\ \A l \in 1..(k - 1) : ~Surely(l)}}
                   \cup (IF \A l \in 1..n : ~Surely(l) THEN {<<ev.limit, FALSE>>} ELSE {})
           Kept(k) == IF ev.crit = "GMM" THEN k + 1 ELSE ArgMaxFirst(SubSeq(st.gmcm, 1, k + 1))
           Fits(e) == e[1] <= n /\ e[2] = ev.conv /\ Equal(ev.now, st.it[Kept(e[1])], Fl("1e-9"), Fl("1e-10")) /\ FClose(ev.ll, st.gmcm[Kept(e[1])], Fl("1e-9"), Fl("1e-9"))
       IN (IF \E e \in Ends : e[1] > n \/ Fits(e) THEN {}
           ELSE {<<"ends_with_the_iterate_of_its_criterion", ev.crit \o " limit " \o ToString(ev.limit) \o " eps " \o FShow(ev.eps) \o " log-likelihoods " \o Show(st.gmcm) \o " changes " \o Show(ch)
                    \o " possible ends " \o ToString(Ends) \o " but kept likelihood " \o FShow(ev.ll) \o " converged " \o ToString(ev.conv)>>})
          \cup (IF Equal(ev.now, ev.rep, 0, 0) THEN {} ELSE {<<"copula_holds_the_fitted_parameters", ev.key>>})
\* the bookkeeping of the loop on a scripted history of log-likelihoods
LoopFailing(st, ev) ==
  LET n == Len(ev.gmcm)
      best == IF ev.crit = "GMM" THEN n ELSE CHOOSE k \in 1..n : (\A l \in 1..n : ev.gmcm[l] <= ev.gmcm[k]) /\ \A l \in 1..(k - 1) : ev.gmcm[l] < ev.gmcm[k]
  IN (IF ev.gmcm[ev.best] = ev.gmcm[best] /\ (ev.crit = "GMM" => ev.best = best) THEN {} ELSE {<<"loop_keeps_its_best_iterate", ToString(<<ev.crit, ev.gmcm, ev.best>>)>>})
     \cup (IF ev.ll = ev.gmcm[best] THEN {} ELSE {<<"loop_reports_the_likelihood_of_what_it_keeps", ToString(<<ev.crit, ev.gmcm, ev.ll>>)>>})
     \cup (IF n > 1 /\ ev.claims # ev.converged THEN {<<"loop_stops_by_its_criterion", ToString(<<ev.crit, ev.gmm, ev.gmcm>>)>>} ELSE {})
TFailing(st, ev) ==
  CASE ev.op \in {"pdf", "cdf", "random"} -> ValueFailing(st, ev)
    [] ev.op = "fit" -> FitFailing(st, ev) \cup (IF ev.descent THEN DescentFailing(st, ev) ELSE {})
    [] ev.op = "kmeans" -> KmeansFailing(st, ev)
    [] ev.op = "assign" -> IF ev.res.k = "exc" THEN {<<"accepts_parameters", ev.res.e>>} ELSE {}
    [] ev.op = "iterate" -> IterFailing(st, ev)
    [] ev.op = "em" -> EmFailing(st, ev)
    [] ev.op = "loop" -> LoopFailing(st, ev)
    [] ev.op = "data" -> {}
=============================================================================
