------------------------------ MODULE Trace_C05 ------------------------------
(* Recorded generator, inverse generator, derivative and Pickands values    *)
(* against the defining formulas; the state is the current parameter.       *)
EXTENDS Replay, Copulas

TInit(s) == <<>>
TNext(st, ev) == IF ev.op = "params" THEN ev.par ELSE st

Good(c, ev, i) ==
  LET x == IF ev.x = <<>> THEN 0 ELSE ev.x[i]
      v == ev.res.v[i]
  IN CASE ev.op = "ipsi" -> FClose(v, IPsi(c, x), Fl("1e-9"), Fl("2e-13")) \/ (FEq(x, 0) /\ FEq(v, IPsi(c, x)))
       [] ev.op = "psi" -> FClose(v, Psi(c, x), Fl("1e-9"), Fl("1e-11"))
       [] ev.op = "dipsi1" -> FClose(v, DIPsi1(c, x), Fl("1e-9"), Fl("1e-280"))
       [] ev.op = "dipsi2" -> FClose(v, DIPsi2(c, x), Fl("1e-9"), Fl("1e-280"))
       [] ev.op = "undo" -> \/ FClose(v, x, Fl("1e-9"), Fl("1e-10"))
                              \* no float represents the inverse generator's value
                              \/ (0 \prec x /\ x \prec 1 /\ LET y == IPsi(c, x) IN ~FIsFinite(y) \/ y \prec Fl("1e-290"))
       [] ev.op = "A" -> FClose(v, IF FEq(x, 0) \/ FEq(x, 1) THEN Fl("1") ELSE PickA(Th(c), x), Fl("1e-11"), 0)
       [] ev.op = "dAdu" ->      \* row i holds both derivatives
            /\ FClose(ev.res.v[2 * i - 1], PickA1(Th(c), x), Fl("1e-8"), Fl("1e-10"))
            /\ FClose(ev.res.v[2 * i], PickA2(Th(c), x), Fl("1e-8"), Fl("1e-9"))
Expect(c, ev, x) ==
  CASE ev.op = "ipsi" -> FShow(IPsi(c, x)) [] ev.op = "psi" -> FShow(Psi(c, x)) [] ev.op = "dipsi1" -> FShow(DIPsi1(c, x))
    [] ev.op = "dipsi2" -> FShow(DIPsi2(c, x)) [] ev.op = "A" -> FShow(PickA(Th(c), x))
    [] ev.op = "dAdu" -> FShow(PickA1(Th(c), x)) \o ", " \o FShow(PickA2(Th(c), x)) [] OTHER -> FShow(x)
Clause(op) ==
  CASE op = "ipsi" -> "inverse_generator_formula" [] op = "psi" -> "generator_formula" [] op \in {"dipsi1", "dipsi2"} -> "true_derivative_of_inverse_generator"
    [] op = "undo" -> "generators_undo_each_other" [] op = "A" -> "pickands_function" [] op = "dAdu" -> "true_pickands_derivatives"
TFailing(st, ev) ==
  IF ev.op = "params" THEN (IF ev.res.k = "exc" THEN {<<"accepts_parameter", ev.res.e>>} ELSE {})
  ELSE IF ev.op = "perm" THEN
    (IF ev.res.k \in {"arr", "series"} /\ \A i \in 1..Len(ev.res.v) : FClose(ev.res.v[i], ev.res.v[1], Fl("1e-9"), Fl("1e-9")) THEN {}
     ELSE {<<"coordinates_can_be_permuted", ev.res.k>>})
  ELSE LET c == [fam |-> ev.fam, d |-> 2, par |-> st]
           w == IF ev.op = "dAdu" THEN 2 ELSE 1
       IN IF ev.res.k \notin {"num", "arr", "series", "df"} \/ Len(ev.res.v) # w * Len(ev.x)
            THEN {<<"one_value_per_argument", ev.res.k \o " " \o ev.res.e>>}
          ELSE {<<Clause(ev.op), ev.fam \o " theta " \o FShow(st[1]) \o " at " \o FShow(ev.x[i]) \o " expected " \o Expect(c, ev, ev.x[i])
                    \o " got " \o FShow(ev.res.v[w * (i - 1) + 1])>> : i \in {i \in 1..Len(ev.x) : ~Good(c, ev, i)}}
==============================================================================
