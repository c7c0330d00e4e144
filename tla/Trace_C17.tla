------------------------------ MODULE Trace_C17 ------------------------------
(* Recorded marginal copulas.  State: the inner copula (family, dimension,  *)
(* parameter) and the margins, as the description given and the fits since  *)
(* make them.                                                               *)
EXTENDS Replay, Margins

TInit(s) == [c |-> [fam |-> s.init.fam, d |-> s.init.d, par |-> s.init.par], desc |-> s.init.desc, M |-> IF ValidMargins(s.init.desc, s.init.d) THEN MarginsOf(s.init.desc, s.init.d) ELSE <<>>]
TNext(st, ev) == IF ev.op = "fit" /\ ev.res.k # "exc" THEN [st EXCEPT !.c.par = ev.par, !.M = ev.margins] ELSE st

Show(v) == ToString([i \in 1..Len(v) |-> FShow(v[i])])
SeqClose(a, b, r, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FClose(a[i], b[i], r, t)
CdfTol(c, u) == IF c.fam = "gaussian" /\ c.d >= 3 THEN Fl("2e-4") ELSE Fl("1e-8")
PdfTol(c, u) == Fl("2e-6")
Values(ev, what, Ok(_, _), Want(_)) ==
  LET r == ev.res IN
  IF r.k \notin {"num", "arr", "series"} \/ Len(r.v) # Len(ev.at) THEN {<<what \o "_one_value_per_point", r.k \o " " \o r.e>>}
  ELSE {<<what, "at " \o Show(ev.at[i]) \o " expected " \o FShow(Want(ev.at[i])) \o " got " \o FShow(r.v[i])>> : i \in {i \in 1..Len(ev.at) : ~Ok(ev.at[i], r.v[i])}}
CdfFailing(st, ev) ==
  LET Want(x) == JointCdf(st.c, st.M, x)
      Tol(x) == CdfTol(st.c, Levels(st.M, x))
  IN IF ev.log THEN Values(ev, "log_distribution_function", LAMBDA x, v : FClose(FExp(v), Want(x), 0, Tol(x)), LAMBDA x : FLn(Want(x)))
     ELSE Values(ev, "distribution_function", LAMBDA x, v : FClose(v, Want(x), 0, Tol(x)), Want)
PdfFailing(st, ev) ==
  LET Want(x) == JointLogPdf(st.c, st.M, x)
      Tol(x) == PdfTol(st.c, Levels(st.M, x))
  IN IF ev.log THEN Values(ev, "log_density", LAMBDA x, v : FClose(v, Want(x), Fl("1e-9"), Tol(x)), Want)
     ELSE Values(ev, "density", LAMBDA x, v : FClose(v, FExp(Want(x)), Tol(x), Fl("1e-280")), LAMBDA x : FExp(Want(x)))
DrawFailing(st, ev) ==
  LET r == ev.res IN
  IF r.k \notin {"arr", "df"} \/ r.shape # <<Len(ev.u), st.c.d>> THEN {<<"draw_has_n_rows", r.k \o r.e>>}
  ELSE (IF ev.names = <<>> \/ (r.k = "df" /\ r.cols = ev.names) THEN {} ELSE {<<"draw_is_labelled", ToString(r.cols)>>})
  \cup {<<"draw_is_quantile_of_inner_draw", "u " \o FShow(ev.u[p[1]][p[2]]) \o " gave " \o FShow(r.v[((p[1] - 1) * st.c.d) + p[2]])>> :
          p \in {p \in (1..Len(ev.u)) \X (1..st.c.d) :
                   LET x == r.v[((p[1] - 1) * st.c.d) + p[2]] u == ev.u[p[1]][p[2]] m == st.M[p[2]]
                   IN ~FIsFinite(x) \/ (~FClose(MCdf(m, x), u, Fl("1e-7"), Fl("1e-9")))}}
Names(m) == [type |-> m.type, par |-> m.par]
LookFailing(st, ev) ==
     (IF SeqClose(ev.par, st.c.par, Fl("1e-12"), 0) THEN {} ELSE {<<"reports_inner_parameters", Show(ev.par)>>})
\cup (IF Len(ev.margins) # st.c.d THEN {<<"reports_one_margin_per_dimension", ToString(Len(ev.margins))>>}
      ELSE {<<"reports_margins", ev.margins[j].type \o Show(ev.margins[j].par) \o " expected " \o st.M[j].type \o Show(st.M[j].par)>> : j \in {j \in 1..st.c.d :
              ~(ev.margins[j].type = st.M[j].type /\ ev.margins[j].names = ParNames(st.M[j].type) /\ SeqClose(ev.margins[j].par, st.M[j].par, Fl("1e-12"), 0))}})
FitFailing(st, ev) ==
  IF ev.res.k = "exc" THEN {<<"fit_succeeds", ev.res.e>>}
  ELSE (IF SeqClose(ev.par, ev.inner, Fl("1e-6"), Fl("1e-8")) THEN {} ELSE {<<"inner_copula_is_fitted_to_the_data", Show(ev.par) \o " expected " \o Show(ev.inner)>>})
  \cup (IF Len(ev.margins) # st.c.d THEN {<<"fit_keeps_one_margin_per_dimension", "">>} ELSE
     LET X(j) == [i \in 1..Len(ev.rows) |-> ev.rows[i][j]] IN
       {<<"fit_keeps_margin_types", ev.margins[j].type>> : j \in {j \in 1..st.c.d : ev.margins[j].type # st.M[j].type}}
  \cup {<<"margin_is_fitted_to_its_column", st.M[j].type \o " got " \o Show(ev.margins[j].par) \o " expected " \o Show(MLE(st.M[j].type, X(j)))>> :
          j \in {j \in 1..st.c.d : ev.margins[j].type = st.M[j].type /\ st.M[j].type \in ClosedForm /\ ~SeqClose(ev.margins[j].par, MLE(st.M[j].type, X(j)), Fl("1e-6"), Fl("1e-8"))}}
  \cup {<<"margin_is_fitted_to_its_column", st.M[j].type \o " got " \o Show(ev.margins[j].par)>> :
          j \in {j \in 1..st.c.d : ev.margins[j].type = st.M[j].type /\ st.M[j].type \in {"logistic", "gumbel_r", "gumbel_l", "cauchy"}
                   /\ ~((MargLogLik([type |-> st.M[j].type, par |-> ev.truth[j]], X(j)) -- Fl("0.01")) \preceq MargLogLik(ev.margins[j], X(j)))}})
TFailing(st, ev) ==
  CASE ev.op = "construct" -> IF ev.res.k = "exc" THEN (IF ValidMargins(st.desc, st.c.d) THEN {<<"accepts_margins", ev.res.e>>} ELSE {})
                              ELSE IF ValidMargins(st.desc, st.c.d) THEN {} ELSE {<<"refuses_invalid_margins", ev.key>>}
    [] ev.op = "cdf" -> CdfFailing(st, ev)
    [] ev.op = "pdf" -> PdfFailing(st, ev)
    [] ev.op = "draw" -> DrawFailing(st, ev)
    [] ev.op = "look" -> LookFailing(st, ev)
    [] ev.op = "fit" -> FitFailing(st, ev)
    [] ev.op = "refuse" -> IF ev.res.k = "exc" THEN {} ELSE {<<"refuses_" \o ev.what, ev.res.k>>}
==============================================================================
