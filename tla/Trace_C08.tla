------------------------------ MODULE Trace_C08 ------------------------------
(* Recorded life cycles.  After every step everything visible is observed:  *)
(*   obs.par    parameters            obs.fit   the fit report              *)
(*   obs.cols   column names of a drawn table   obs.smry the summary        *)
(* State: the observation after the previous step.                          *)
EXTENDS Replay, Likelihood

TInit(s) == [obs |-> s.init.obs, fam |-> s.init.fam, always |-> s.init.always]
TNext(st, ev) == [st EXCEPT !.obs = ev.obs]

SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FEq(a[i], b[i]) \/ (FIsNaN(a[i]) /\ FIsNaN(b[i]))
Near(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FClose(a[i], b[i], t, t)
Tail_(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Unchanged(st, ev, what) ==
     (IF SameSeq(ev.obs.par, st.obs.par) THEN {} ELSE {<<what \o "_keeps_parameters", ToString([i \in 1..Len(ev.obs.par) |-> FShow(ev.obs.par[i])])>>})
\cup (IF ev.obs.fit = st.obs.fit THEN {} ELSE {<<what \o "_keeps_report", ev.obs.fit.k \o ev.obs.fit.e>>})
\cup (IF ev.obs.cols = st.obs.cols THEN {} ELSE {<<what \o "_keeps_columns", ToString(ev.obs.cols)>>})

\* what every observation must show, whatever happened
Shows(st, ev, fitted) ==
  LET o == ev.obs r == o.fit
      Has(nums, x) == \E i \in 1..Len(nums) : FEq(nums[i], x)
      HasNear(nums, x) == \E i \in 1..Len(nums) : FClose(nums[i], x, Fl("1e-2"), Fl("1e-3"))
  IN (IF fitted \/ st.always THEN (IF r.k = "report" THEN {} ELSE {<<"fit_report_available", r.k \o " " \o r.e>>})
      ELSE IF r.k = "exc" /\ r.notfitted THEN {} ELSE {<<"not_fitted_error_before_the_first_fit", r.k \o " " \o r.e>>})
     \cup (IF r.k = "report" /\ ~(r.text /\ r.html) THEN {<<"report_renders_as_text_and_html", r.e>>} ELSE {})
     \cup (IF r.k = "report" /\ r.hasll /\ fitted /\ r.text /\ r.html /\
              ~(Has(r.tnums, r.ll) /\ Has(r.hnums, r.ll) /\ Has(r.tnums, r.n) /\ Has(r.hnums, r.n))
           THEN {<<"report_shows_likelihood_and_sample_size", FShow(r.ll)>>} ELSE {})
     \cup (IF o.smry.k = "report" /\ o.smry.text /\ o.smry.html THEN {} ELSE {<<"summary_renders_as_text_and_html", o.smry.k \o " " \o o.smry.e>>})
     \cup (IF o.smry.k = "report" /\ o.smry.text /\ o.smry.html THEN
             {<<"summary_shows_the_parameters", FShow(o.par[i])>> : i \in {i \in 1..Len(o.par) : FIsFinite(o.par[i]) /\ ~(HasNear(o.smry.tnums, o.par[i]) /\ HasNear(o.smry.hnums, o.par[i]))}} ELSE {})
Fitted(st) == st.obs.fit.k = "report"

GoodFailing(st, ev) ==
  IF ev.res.k = "exc" THEN      \* the mixture estimators may give up on degenerate data, and then change nothing
    (IF st.fam = "gmc" /\ ev.res.e \in {"FitException", "LinAlgError"} THEN Unchanged(st, ev, "failure") ELSE {<<"fit_succeeds", ev.res.e>>})
  ELSE
  LET o == ev.obs r == o.fit IN
     (IF ev.isself THEN {} ELSE {<<"fit_returns_the_copula", ev.res.t>>})
\cup Shows(st, ev, TRUE)
\cup (IF ev.table /\ o.cols # ev.names THEN {<<"fit_learns_column_names", ToString(o.cols)>>} ELSE {})
\cup (IF st.always \/ r.k # "report" THEN {} ELSE
        (IF FEq(r.n, ev.n) THEN {} ELSE {<<"report_counts_the_observations", FShow(r.n)>>})
   \cup (IF ev.converged /\ ~Near(r.par, Tail_(o.fitpar, Len(r.par)), Fl("1e-9")) THEN {<<"report_gives_the_copula_parameters", ToString([i \in 1..Len(r.par) |-> FShow(r.par[i])])>>} ELSE {})
   \cup (IF ev.converged /\ Len(r.par) = 0 THEN {<<"report_gives_the_copula_parameters", "none">>} ELSE {})
   \cup (IF ~ev.converged \/ ~r.hasll \/ Len(ev.rows) = 0 THEN {}
         ELSE LET P == IF ev.topobs THEN PobsRows(ev.rows, ev.ties) ELSE ev.rows
                  total == FSum(ev.lp)
                  size == 1 ++ FSum([i \in 1..Len(ev.lp) |-> FAbs(ev.lp[i])])
              IN (IF \E i \in 1..Len(P) : \E j \in 1..Len(P[1]) : ~FClose(P[i][j], ev.pts[i][j], Fl("1e-12"), 0)
                    THEN {<<"harness_points_are_pseudo_observations", ToString(ev.ties)>>} ELSE {})
                 \cup (IF FClose(r.ll, total, 0, Fl("1e-8") ** size) THEN {} ELSE {<<"report_gives_the_likelihood", "expected " \o FShow(total) \o " got " \o FShow(r.ll)>>})))
BadFailing(st, ev) ==
     (IF ev.res.k = "exc" \/ (st.always /\ ev.kind # "category") THEN {} ELSE {<<"refuses_" \o ev.kind, ev.res.k>>})
\cup Unchanged(st, ev, "refusal") \cup Shows(st, ev, Fitted(st))
AssignFailing(st, ev) ==
     (IF ev.res.k = "exc" THEN {<<"accepts_parameters", ev.res.e>>} ELSE {})
\cup (IF ev.obs.fit = st.obs.fit THEN {} ELSE {<<"assignment_keeps_report", ev.obs.fit.k>>})
\cup (IF ev.obs.cols = st.obs.cols THEN {} ELSE {<<"assignment_keeps_columns", ToString(ev.obs.cols)>>})
\cup Shows(st, ev, Fitted(st))
TFailing(st, ev) ==
  CASE ev.op = "fit" -> GoodFailing(st, ev)
    [] ev.op = "bad" -> BadFailing(st, ev)
    [] ev.op = "assign" -> AssignFailing(st, ev)
    [] ev.op = "look" -> Shows(st, ev, Fitted(st)) \cup Unchanged(st, ev, "reading")
==============================================================================
