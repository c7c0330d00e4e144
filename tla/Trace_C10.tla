------------------------------ MODULE Trace_C10 ------------------------------
(* Recorded evaluations of one copula and method.  The first events are the *)
(* answers for every row alone (plain 1 x d array), for the points arranged *)
(* in the copula's own column order and in other orders; every other form   *)
(* of the same rows must give the same answers in the documented shape.     *)
EXTENDS Replay, Inputs, SequencesExt

TInit(s) == [known |-> s.init.known, d |-> s.init.d, base |-> <<>>]
TNext(st, ev) == IF ev.op = "base" THEN [st EXCEPT !.base = Append(@, [set |-> ev.set, order |-> ev.order, v |-> ev.v])] ELSE st

BaseOf(st, ev) ==
  LET order == Lands([kind |-> ev.form.kind, order |-> ev.form.order], st.known)
      k == CHOOSE k \in 1..Len(st.base) : st.base[k].set = ev.set /\ st.base[k].order = order
  IN [i \in 1..Len(ev.rows) |-> st.base[k].v[ev.rows[i]]]
Scalar(o) == o.k = "num"
Vector(o) == o.k \in {"arr", "series"} /\ Len(o.shape) = 1
Tol(ev) == IF ev.set = "f4" THEN Fl("1e-3") ELSE Fl("1e-10")
Close(ev, a, b) == FEq(a, b) \/ (FIsNaN(a) /\ FIsNaN(b)) \/ FClose(a, b, Tol(ev) ++ ev.noise, Tol(ev) ++ ev.noise)
EvalFailing(st, ev) ==
  LET want == BaseOf(st, ev) IN
  IF ev.res.k = "exc" THEN {<<"accepts_every_input_form", ev.res.e>>}
  ELSE IF Len(want) = 1 /\ ~Scalar(ev.res) THEN {<<"one_point_gives_a_scalar", ev.res.k \o ToString(ev.res.shape)>>}
  ELSE IF Len(want) > 1 /\ (~Vector(ev.res) \/ ev.res.shape[1] # Len(want)) THEN {<<"one_value_per_row", ev.res.k \o ToString(ev.res.shape)>>}
  ELSE {<<"same_answer_as_the_row_alone", "row " \o ToString(ev.rows[i]) \o " expected " \o FShow(want[i]) \o " got " \o FShow(ev.res.v[i])>> :
          i \in {i \in 1..Len(want) : ~Close(ev, ev.res.v[i], want[i])}}
RefuseFailing(ev) ==
  IF ev.res.k # "exc" THEN {<<"refuses_malformed_input", ev.res.k>>}
  ELSE IF \E i \in 1..Len(ev.res.idx) : ev.res.idx[i] = "ValueError" THEN {} ELSE {<<"refusal_is_a_value_error", ev.res.e>>}
\* the likelihood of a labelled table: same as that of the array in the copula's order
LikFailing(st, ev) ==
  LET order == Lands([kind |-> ev.form.kind, order |-> ev.form.order], st.known)
      k == CHOOSE k \in 1..Len(ev.liks) : ev.liks[k].order = order
  IN IF ev.res.k # "num" THEN {<<"likelihood_is_a_number", ev.res.k \o ev.res.e>>}
     ELSE IF FClose(ev.res.v[1], ev.liks[k].v, Fl("1e-9"), Fl("1e-9")) THEN {} ELSE {<<"likelihood_matched_by_name", "expected " \o FShow(ev.liks[k].v) \o " got " \o FShow(ev.res.v[1])>>}
TFailing(st, ev) ==
  CASE ev.op = "base" -> IF ev.bad # "" THEN {<<"row_alone_gives_a_scalar", ev.bad>>} ELSE {}
    [] ev.op = "eval" -> EvalFailing(st, ev)
    [] ev.op = "refuse" -> RefuseFailing(ev)
    [] ev.op = "lik" -> LikFailing(st, ev)
==============================================================================
