------------------------------ MODULE Trace_C14 ------------------------------
(* Recorded correlation calls.  State: the data in force (rows; NaN is a   *)
(* missing value) and its labels.                                          *)
EXTENDS Replay, Correlation

TInit(s) == [rows |-> s.init.rows, names |-> s.init.names]
TNext(st, ev) == IF ev.op = "change" THEN [st EXCEPT !.rows = ev.rows] ELSE st

\* every pair has at least two usable rows, so that no statistic is undefined for want of data
Enough(rows, d, use) == \A i, j \in 1..d : i = j \/ Len(Used(rows, i, j, use)) >= 2
At(r, d, i, j) == r.v[(i - 1) * d + j]
MatFailing(rows, d, names, ev) ==
  LET r == ev.res use == ev.use IN
  IF r.k = "exc" THEN (IF Enough(rows, d, use) THEN {<<"correlation_succeeds", r.e>>} ELSE {})
  ELSE IF r.k \notin {"arr", "df"} \/ r.shape # <<d, d>> THEN {<<"correlation_matrix_is_square", r.k \o ToString(r.shape)>>}
  ELSE (IF (names = <<>> /\ r.k = "arr") \/ (names # <<>> /\ r.k = "df" /\ r.cols = names /\ r.idx = names) THEN {} ELSE {<<"correlation_labels", ToString(r.cols) \o ToString(r.idx)>>})
  \cup {<<"correlation_diagonal_is_one", FShow(At(r, d, i, i))>> : i \in {i \in 1..d : ~FEq(At(r, d, i, i), 1)}}
  \cup {<<"correlation_symmetric", ToString(p)>> : p \in {p \in (1..d) \X (1..d) : p[1] < p[2] /\ ~FClose(At(r, d, p[1], p[2]), At(r, d, p[2], p[1]), 0, 0)}}
  \cup {<<"correlation_value", ev.method \o "/" \o use \o " of " \o ToString(p) \o " expected " \o FShow(Entry(rows, p[1], p[2], ev.method, use)) \o " got " \o FShow(At(r, d, p[1], p[2]))>> :
          p \in {p \in (1..d) \X (1..d) : p[1] < p[2] /\ Defined(rows, p[1], p[2], use)
                   /\ ~(HasInfinity(rows, p[1], p[2], use) /\ FIsNaN(At(r, d, p[1], p[2])))
                   /\ ~FClose(At(r, d, p[1], p[2]), Entry(rows, p[1], p[2], ev.method, use), 0, Fl("1e-9"))}}
TFailing(st, ev) ==
  CASE ev.op = "matrix" -> MatFailing(st.rows, Len(st.rows[1]), st.names, ev)
    [] ev.op = "pair" -> MatFailing([i \in 1..Len(st.rows) |-> <<st.rows[i][ev.i], st.rows[i][ev.j]>>], 2, ev.names, ev)
    [] ev.op = "change" -> {}
    [] ev.op = "refuse" -> IF ev.res.k = "exc" THEN {} ELSE {<<"refuses_" \o ev.what, ev.res.k>>}
==============================================================================
