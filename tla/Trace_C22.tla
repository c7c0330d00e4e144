----------------------------- MODULE Trace_C22 -----------------------------
(* Recorded measures against Measures.tla; the state is the parameter the    *)
(* copula accepted last (degrees of freedom first for the Student family).   *)
EXTENDS Replay, Measures

TInit(s) == <<>>
TNext(st, ev) == IF ev.op \in {"params", "fit"} /\ ev.ok THEN ev.par ELSE st

Bad(name, ev, want, got, what) == {<<name, ev.key \o " " \o what \o " expected " \o FShow(want) \o " got " \o FShow(got)>>}
\* the values a measure is taken at: the argument, or the current parameter
Pars(st, ev) == IF ev.x # <<>> THEN ev.x ELSE IF ev.fam = "student" THEN Tail(st) ELSE st
Want(ev, t) == CASE ev.op = "tau" -> TauOf(ev.fam, t) [] ev.op = "rho" -> RhoOf(ev.fam, t) [] ev.op = "dtau" -> DTauOf(ev.fam, t) [] ev.op = "drho" -> DRhoOf(ev.fam, t)
                 [] ev.op = "irho" -> IRhoOf(ev.fam, t) [] ev.op = "itau" -> ITauOf(ev.fam, t)
Clause(op) == CASE op = "tau" -> "tau_of_the_current_parameter" [] op = "rho" -> "rho_of_the_current_parameter" [] op \in {"dtau", "drho"} -> "true_derivative"
                [] op \in {"itau", "irho"} -> "inverse_undoes_the_measure"
RTol(ev) == IF ev.op \in {"dtau", "drho"} /\ ev.fam = "frank" THEN Fl("1e-7") ELSE Fl("1e-9")
ATol(ev) == IF ev.fam = "frank" THEN Fl("1e-10") ELSE Fl("1e-12")
\* the slope of the normal measures at the ends is infinite
Good(ev, t, g) == IF ev.op = "itau" /\ ev.fam = "frank" THEN FClose(TauOf("frank", g), t, 0, Fl("1e-10")) /\ (FEq(t, 0) => FEq(g, 0))
                  ELSE FClose(g, Want(ev, t), RTol(ev), ATol(ev))
Shown(ev, t, g) == IF ev.op = "itau" /\ ev.fam = "frank" THEN Bad(Clause(ev.op), ev, t, TauOf("frank", g), "at " \o FShow(t) \o " gave " \o FShow(g) \o " whose tau:")
                   ELSE Bad(Clause(ev.op), ev, Want(ev, t), g, "at " \o FShow(t))
\* a current parameter is shown as a number or, pair by pair, as a vector
Form(ev, n) == /\ ev.res.k \in {"num", "arr", "series"} /\ Len(ev.res.v) = n
               /\ IF ev.x = <<>> THEN TRUE ELSE IF n = 1 THEN TRUE ELSE ev.res.shape = ev.shape
Values(st, ev) ==
  LET p == Pars(st, ev) IN
  IF ~Form(ev, Len(p)) THEN {<<"one_value_per_argument", ev.key \o " " \o ev.res.k \o ev.res.e \o " " \o ToString(ev.res.shape)>>}
  ELSE UNION {IF Good(ev, p[i], ev.res.v[i]) THEN {} ELSE Shown(ev, p[i], ev.res.v[i]) : i \in 1..Len(p)}
TailFailing(st, ev) ==
  LET n == IF ev.fam \in Archimedean THEN 1 ELSE Len(st) - (IF ev.fam = "student" THEN 1 ELSE 0)
      At(i) == TailOf(ev.fam, IF ev.fam = "student" THEN <<st[1], st[i + 1]>> ELSE st[i])
  IN IF ev.res.k # "arr" \/ Len(ev.res.v) # 2 * n THEN {<<"tail_dependence_read_the_same_way", ev.key \o " " \o ev.res.k \o ev.res.e>>}
     ELSE UNION {LET w == At(i) IN
                 (IF FClose(ev.res.v[i], w[1], Fl("1e-7"), Fl("1e-10")) THEN {} ELSE Bad("lower_tail_dependence", ev, w[1], ev.res.v[i], ""))
                 \cup (IF FClose(ev.res.v[n + i], w[2], Fl("1e-7"), Fl("1e-10")) THEN {} ELSE Bad("upper_tail_dependence", ev, w[2], ev.res.v[n + i], "")) : i \in 1..n}
RootFailing(ev) ==
  IF ev.refuse THEN (IF ev.res.k = "exc" THEN {} ELSE {<<"no_root_is_refused", ev.key \o " " \o ev.res.k>>})
  ELSE IF ev.res.k = "num" /\ FClose(ev.res.v[1], ev.root, Fl("1e-9"), Fl("1e-9")) THEN {} ELSE {<<"finds_the_root", ev.key \o " gave " \o ev.res.k \o ev.res.e>>}
\* writes must be accepted exactly when they are of the right form and in range
RightForm(st, ev) == st = <<>> \/ Len(ev.par) = Len(st)
TFailing(st, ev) ==
  CASE ev.op \in {"params", "fit"} -> IF ev.ok /\ ~RightForm(st, ev) THEN {<<"refuses_parameters_of_another_size", ev.key>>} ELSE {}
    [] ev.op = "tail" -> TailFailing(st, ev)
    [] ev.op = "root" -> RootFailing(ev)
    [] OTHER -> Values(st, ev)
=============================================================================
