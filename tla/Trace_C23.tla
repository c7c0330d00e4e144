----------------------------- MODULE Trace_C23 -----------------------------
(* Recorded evaluations of the special functions.                            *)
EXTENDS Replay, Special

TInit(s) == [calls |-> 0]
TNext(st, ev) == [calls |-> st.calls + 1]

Bad(name, ev, want, got, i) == {<<name, ev.key \o " element " \o ToString(i) \o " at " \o FShow(ev.x[i][1]) \o " " \o FShow(ev.x[i][2]) \o " expected " \o FShow(want) \o " got " \o FShow(got)>>}
\* half turns reduced to one period, exactly
Turn(x, p) == x -- (p ** FFloor(x // p))
Trig(g, x, tol) == FClose(g, x, tol, tol)
\* <<real part, imaginary part, relative tolerance, absolute tolerance>>
Real(v, rel, abs) == <<v, Fl("0"), rel, abs>>
TrigTol(x) == Fl("3e-15") ** (1 ++ FAbs(x))
Want(ev, i) ==
  LET x == ev.x[i][1] y == ev.x[i][2]
      CTol(v) == <<v[1], v[2], Fl("1e-11"), Fl("1e-11") ** (1 ++ CAbs(v))>>
      TanTol(t) == TrigTol(x) ** (1 ++ Sq(t))
  IN CASE ev.fn = "debye_1" -> Real(Debye(1, x), Fl("1e-11"), Fl("0"))
       [] ev.fn = "debye_2" -> Real(Debye(2, x), Fl("1e-11"), Fl("0"))
       [] ev.fn = "dilog" -> LET v == Li2(x) IN Real(v, Fl("1e-11"), Fl("1e-12") ** FMin(Fl("1"), FAbs(x)))
       [] ev.fn = "dilog_complex" -> CTol(CLi2(<<x, y>>))
       [] ev.fn = "dilog_polar" -> IF FEq(x, 0) THEN CTol(C0) ELSE IF FEq(y, 0) THEN CTol(CLi2(<<x, Fl("0")>>)) ELSE CTol(CLi2(Polar(x, y)))
       [] ev.fn = "clausen" -> LET v == Clausen(x) IN Real(v, Fl("1e-11"), Fl("1e-12") ** FAbs(x))
       [] ev.fn = "log1mexp" -> Real(Log1mExp(x), Fl("1e-13"), Fl("1e-320"))
       [] ev.fn = "log1pexp" -> Real(Log1pExp(x), Fl("1e-13"), Fl("1e-320"))
       [] ev.fn = "cospi" -> Real(FCos(Pi ** Turn(x, Fl("2"))), Fl("0"), TrigTol(x))
       [] ev.fn = "sinpi" -> Real(FSin(Pi ** Turn(x, Fl("2"))), Fl("0"), TrigTol(x))
       [] ev.fn = "cospi2" -> Real(FCos(Pi ** Turn(x // 2, Fl("2"))), Fl("0"), TrigTol(x))
       [] ev.fn = "sinpi2" -> Real(FSin(Pi ** Turn(x // 2, Fl("2"))), Fl("0"), TrigTol(x))
       [] ev.fn = "tanpi" -> LET t == Turn(x, Fl("1")) v == FSin(Pi ** t) // FCos(Pi ** t) IN Real(v, Fl("0"), TanTol(v))
       [] ev.fn = "tanpi2" -> LET t == Turn(x // 2, Fl("1")) v == FSin(Pi ** t) // FCos(Pi ** t) IN Real(v, Fl("0"), TanTol(v))
       [] ev.fn = "poly_log" ->
            LET z == <<x, y>> p == PolyLog(ev.s, z)
                \* of a real number: the real part
                v == IF ev.real /\ ev.s = 2 THEN <<p[1], Fl("0")>> ELSE p
                size == IF ev.s > 0 THEN 1 ++ CAbs(v) ELSE IF ev.m = "eulerian" THEN EulerLiSize(-ev.s, z) ELSE NegLiSize(-ev.s, z)
                \* the reference itself goes through powers of z / (1 - z)
                ref == IF ev.s > 0 THEN Fl("0") ELSE NegLiSize(-ev.s, z)
                tol == Fl("1e-12") ** (size ++ ref)
            IN IF ~ev.log THEN <<v[1], v[2], Fl("0"), tol>> ELSE Real(FLn(v[1]), Fl("0"), Fl("1e-11") ++ (tol // v[1]))
ValFailing(st, ev) ==
  (IF ev.kept THEN {} ELSE {<<"arguments_are_left_alone", ev.key>>}) \cup
  (IF ev.res.k = "exc" \/ Len(ev.re) # Len(ev.x) THEN {<<"one_value_per_argument", ev.key \o " " \o ev.res.k \o ev.res.e>>}
   ELSE UNION {LET w == Want(ev, i) IN
     (IF FClose(ev.re[i], w[1], w[3], w[4]) THEN {} ELSE Bad("special_function_value", ev, w[1], ev.re[i], i)) \cup
     (IF FClose(ev.im[i], w[2], w[3], w[4]) THEN {} ELSE Bad("imaginary_part", ev, w[2], ev.im[i], i)) : i \in 1..Len(ev.x)})
LogSumFailing(st, ev) ==
  (IF ev.kept THEN {} ELSE {<<"arguments_are_left_alone", ev.key>>}) \cup
  (IF ev.res.k = "exc" \/ Len(ev.got) # Len(ev.rows[1]) THEN {<<"one_value_per_argument", ev.key \o " " \o ev.res.k \o ev.res.e>>}
   ELSE UNION {LET w == LogSum([i \in 1..Len(ev.rows) |-> ev.rows[i][j]]) IN
     IF FEq(w, ev.got[j]) \/ FClose(ev.got[j], w, Fl("1e-12"), Fl("1e-10")) THEN {} ELSE {<<"log_of_a_sum", ev.key \o " expected " \o FShow(w) \o " got " \o FShow(ev.got[j])>>} : j \in 1..Len(ev.got)})
Agree(a, b) == FClose(a, b, Fl("1e-13"), Fl("1e-15"))
SameFailing(st, ev) ==
  (IF ev.kept THEN {} ELSE {<<"arguments_are_left_alone", ev.key>>}) \cup
  (IF ev.res.k = "exc" \/ Len(ev.re) # 6 THEN {<<"one_value_per_argument", ev.key \o " " \o ev.res.k \o ev.res.e>>}
   ELSE LET Part(all, one, what) ==
              LET D(k) == {i \in 1..Len(all[1]) : ~Agree(all[k][i], all[3][i])}
                  O == {i \in 1..Len(ev.alone) : Len(all[3]) > 0 /\ ~Agree(one[i], all[3][ev.alone[i]])}
                  Alarm(k) == IF D(k) = {} THEN {} ELSE {<<"threads_do_not_matter", ev.key \o what \o " run " \o ToString(k) \o ": " \o ToString(Cardinality(D(k))) \o " elements differ from the serial answer">>}
              IN UNION {Alarm(k) : k \in 1..Len(all)} \cup
                 (IF O = {} THEN {} ELSE {<<"array_agrees_with_single_elements", ev.key \o what \o ": " \o ToString(Cardinality(O)) \o " elements">>})
        IN Part(ev.re, ev.one[1], "") \cup (IF ev.im[1] = <<>> THEN {} ELSE Part(ev.im, ev.one[2], " imaginary part")))
RefuseFailing(st, ev) == IF ev.res.k = "exc" THEN {} ELSE {<<"refuses_arguments_outside_the_domain", ev.key>>}
TFailing(st, ev) ==
  CASE ev.op = "val" -> ValFailing(st, ev)
    [] ev.op = "logsum" -> LogSumFailing(st, ev)
    [] ev.op = "same" -> SameFailing(st, ev)
    [] ev.op = "refuse" -> RefuseFailing(st, ev)
=============================================================================
