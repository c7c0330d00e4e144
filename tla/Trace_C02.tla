------------------------------ MODULE Trace_C02 ------------------------------
(* Recorded distribution function values against the defining formulas.     *)
(* The state is the copula's current parameter vector; "params" events      *)
(* change it.                                                               *)
EXTENDS Replay, Copulas

TInit(s) == <<>>
TNext(st, ev) == IF ev.op = "params" THEN ev.par ELSE st

Tol(c, u) ==
  IF c.fam = "gaussian" /\ c.d >= 3 THEN Fl("2e-4")
  ELSE Fl("1e-9")
Check(c, ev) ==
  {i \in 1..Len(ev.u) : ~FClose(ev.res.v[i], Cdf(c, ev.u[i]), 0, Tol(c, ev.u[i]))}
TFailing(st, ev) ==
  IF ev.op = "params" THEN (IF ev.res.k = "exc" THEN {<<"accepts_parameter", ev.res.e>>} ELSE {})
  ELSE LET c == [fam |-> ev.fam, d |-> ev.d, par |-> st] IN
       IF ev.res.k \notin {"num", "arr", "series"} \/ Len(ev.res.v) # Len(ev.u)
         THEN {<<"returns_value_per_point", ev.res.k \o " " \o ev.res.e>>}
       ELSE {<<"is_joint_distribution", "par " \o ToString(MapSeq(st, FShow)) \o " at " \o ToString(MapSeq(ev.u[i], FShow)) \o " expected "
                 \o FShow(Cdf(c, ev.u[i])) \o " got " \o FShow(ev.res.v[i])>> : i \in Check(c, ev)}
==============================================================================
