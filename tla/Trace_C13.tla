------------------------------ MODULE Trace_C13 ------------------------------
(* Recorded empirical copulas.  State: the data, the tie rule, smoothing    *)
(* and offset in force, and the ranks they give.                            *)
EXTENDS Replay, Empirical

Cols(rows) == [j \in 1..Len(rows[1]) |-> [i \in 1..Len(rows) |-> rows[i][j]]]
Forced(s) == FoldLeft(LAMBDA acc, x : Append(acc, x), <<>>, s)      \* evaluated once, not at every use
RanksOf(rows, ties) == LET C == Forced(Cols(rows)) IN Forced([j \in 1..Len(C) |-> Forced(RRanks2(Forced(C[j]), ties))])
TInit(s) == [rows |-> s.init.rows, ties |-> s.init.ties, sm |-> s.init.sm, off |-> s.init.off, rk |-> RanksOf(s.init.rows, s.init.ties), names |-> s.init.names]
TNext(st, ev) ==
  CASE ev.op = "smooth" -> [st EXCEPT !.sm = ev.sm]
    [] ev.op = "ties" -> [st EXCEPT !.ties = ev.ties, !.rk = RanksOf(st.rows, ev.ties)]
    [] OTHER -> st

Show(v) == ToString([i \in 1..Len(v) |-> FShow(v[i])])
Values(ev, Want(_), what) ==
  LET r == ev.res IN
  IF r.k = "exc" THEN {<<what \o "_succeeds", r.e>>}
  ELSE IF Len(r.v) # Len(ev.at) THEN {<<what \o "_one_value_per_point", ToString(Len(r.v))>>}
  ELSE {<<what, "at " \o Show(ev.at[i]) \o " expected " \o FShow(Want(ev.at[i])) \o " got " \o FShow(r.v[i])>> :
          i \in {i \in 1..Len(ev.at) : ~FClose(r.v[i], Want(ev.at[i]), Fl("1e-8"), Fl("1e-11"))}}
LogOf(ev, x) == IF ev.log THEN FLn(x) ELSE x
Inside(u) == \A j \in 1..Len(u) : (0 \preceq u[j]) /\ (u[j] \preceq 1)
CdfFailing(st, ev) == Values(ev, LAMBDA u : LogOf(ev, EmpCdf(st.rk, st.sm, st.off, u)), "distribution_function")
PdfFailing(st, ev) ==
  IF st.sm # "beta" THEN IF ev.res.k = "exc" THEN {} ELSE {<<"density_only_for_beta_smoothing", ev.res.k>>}
  ELSE Values(ev, LAMBDA u : LogOf(ev, EmpPdf(st.rk, st.off, u)), "density")
\* rows of r, as sequences
RowsOf(r) == [i \in 1..r.shape[1] |-> SubSeq(r.v, (i - 1) * r.shape[2] + 1, i * r.shape[2])]
SameRow(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : FEq(a[j], b[j])
Form(st, r) == IF st.names = <<>> THEN r.k = "arr" ELSE r.k = "df" /\ r.cols = st.names
DrawFailing(st, ev) ==
  LET r == ev.res IN
  IF r.k \notin {"arr", "df"} THEN {<<"draw_succeeds", r.k \o " " \o r.e>>}
  ELSE IF r.shape # <<ev.n, Len(st.rows[1])>> THEN {<<"draw_has_n_rows", ToString(r.shape)>>}
  ELSE (IF Form(st, r) THEN {} ELSE {<<"draw_is_labelled_like_the_data", r.k \o ToString(r.cols)>>})
  \cup {<<"draws_are_rows_of_the_data", Show(RowsOf(r)[i])>> : i \in {i \in 1..ev.n : ~\E k \in 1..Len(st.rows) : SameRow(RowsOf(r)[i], st.rows[k])}}
\* levels to order statistics; ev.orig holds the original rows
MargFailing(st, ev) ==
  LET r == ev.res S == Forced([j \in 1..Len(ev.orig[1]) |-> Forced(SortedReals(Cols(ev.orig)[j]))]) d == Len(S) IN
  IF r.k \notin {"arr", "df"} THEN {<<"to_marginals_succeeds", r.k \o " " \o r.e>>}
  ELSE IF r.shape # <<Len(ev.at), d>> THEN {<<"to_marginals_keeps_the_shape", ToString(r.shape)>>}
  ELSE (IF ev.names = <<>> THEN (IF r.k = "arr" THEN {} ELSE {<<"to_marginals_form", r.k>>}) ELSE IF r.k = "df" /\ r.cols = ev.names THEN {} ELSE {<<"to_marginals_form", r.k \o ToString(r.cols)>>})
  \cup {<<"to_marginals_order_statistic", "level " \o FShow(ev.at[p[1]][p[2]]) \o " gave " \o FShow(RowsOf(r)[p[1]][p[2]])>> :
          p \in {p \in (1..Len(ev.at)) \X (1..d) : ~FEq(RowsOf(r)[p[1]][p[2]], OrderStat(S[p[2]], ev.at[p[1]][p[2]]))}}
\* data and settings are as they were given
LookFailing(st, ev) ==
     (IF ev.smoothing = st.sm /\ ev.tie = st.ties THEN {} ELSE {<<"settings_as_given", ev.smoothing \o " " \o ev.tie>>})
\cup (IF Len(ev.data) = Len(st.rows) /\ \A i \in 1..Len(st.rows) : SameRow(ev.data[i], st.rows[i]) THEN {} ELSE {<<"data_as_given", "">>})
TFailing(st, ev) ==
  CASE ev.op = "cdf" -> CdfFailing(st, ev)
    [] ev.op = "pdf" -> PdfFailing(st, ev)
    [] ev.op = "draw" -> DrawFailing(st, ev)
    [] ev.op = "marg" -> MargFailing(st, ev)
    [] ev.op = "look" -> LookFailing(st, ev)
    [] ev.op = "refuse" -> IF ev.res.k = "exc" THEN {} ELSE {<<"refused_" \o ev.what, ev.res.k>>}
    [] ev.op \in {"smooth", "ties"} -> IF ev.res.k = "exc" THEN {<<"setting_accepted", ev.res.e>>} ELSE {}
==============================================================================
