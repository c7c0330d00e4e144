------------------------------ MODULE Trace_C06 ------------------------------
(* Recorded constructions and assignments against the parameter machine.    *)
(* State: what the copula holds (par) and its recorded answers (probe);     *)
(* there is no copula while par is empty.                                  *)
EXTENDS Replay, Params

None == <<>>
TInit(s) == [par |-> None, probe |-> <<>>]
Accepted(st, ev) == IF ev.op = "construct" THEN AdmissibleNew(ev.fam, ev.d, ev.x) ELSE Admissible(ev.fam, ev.d, ev.x)
TNext(st, ev) ==
  IF Accepted(st, ev) THEN [par |-> IF ev.op = "construct" THEN ReadBackNew(ev.fam, ev.d, ev.x) ELSE ReadBack(ev.fam, ev.d, ev.x), probe |-> ev.probe]
  ELSE st
Same(o, par) == o.k # "exc" /\ Len(o.v) = Len(par) /\ \A i \in 1..Len(par) : FEq(o.v[i], par[i])
TFailing(st, ev) ==
  IF Accepted(st, ev) THEN
    (IF ev.res.k = "exc" THEN {<<"accepts_every_admissible_value", ev.res.e>>}
     ELSE IF ~Same(ev.params, TNext(st, ev).par) THEN {<<"reads_back_exactly", ToString(ev.params.v)>>} ELSE {})
  ELSE (IF ev.res.k # "exc" THEN {<<"refuses_inadmissible_value", ToString([i \in 1..Len(ev.x.v) |-> FShow(ev.x.v[i])])>>} ELSE {})
       \cup (IF st.par = None \/ Same(ev.params, st.par) THEN {} ELSE {<<"refusal_keeps_parameters", ToString([i \in 1..Len(ev.params.v) |-> FShow(ev.params.v[i])])>>})
       \cup (IF st.par = None \/ ev.probe = st.probe THEN {} ELSE {<<"refusal_keeps_answers", "">>})
==============================================================================
