----------------------------- MODULE Trace_C20 -----------------------------
(* Recorded queries of combinatorial numbers and Gumbel polynomials.         *)
EXTENDS Replay, Combin

TInit(s) == [asked |-> 0]
TNext(st, ev) == [asked |-> st.asked + 1]

T1 == First
T2 == Second
TE == Euler
TP == Pascal
Table(f) == CASE f = "first" -> T1 [] f = "second" -> T2 [] f = "eulerian" -> TE
Refused(ev) == IF ev.res.k = "exc" /\ ev.res.e \in {"AssertionError", "TypeError", "ValueError"} THEN {} ELSE {<<"refuses_arguments_outside_the_domain", ev.key \o " gave " \o ev.res.k>>}
IntFailing(st, ev) == IF ev.got = <<At(Table(ev.fn), ev.n, ev.x)>> THEN {} ELSE {<<"exact_number", ev.key \o " expected " \o At(Table(ev.fn), ev.n, ev.x) \o " got " \o ToString(ev.got) \o ev.res.e>>}
RowOf(ev) == IF ev.fn = "eulerian" THEN IF ev.n = 0 THEN <<Z1>> ELSE [i \in 1..ev.n |-> At(TE, ev.n, i - 1)]
             ELSE [i \in 1..ev.n |-> At(Table(ev.fn), ev.n, i)]
RowFailing(st, ev) == IF ev.got = RowOf(ev) THEN {} ELSE {<<"whole_row_agrees", ev.key \o " got " \o ToString(ev.got) \o ev.res.e>>}

\* values with their own error bounds
Eps == Fl("2.3e-16")
Bad(name, ev, want, got, what) == {<<name, ev.key \o " " \o what \o " expected " \o FShow(want) \o " got " \o FShow(got)>>}
Shape(ev) == ev.res.k \in {"num", "arr"} /\ Len(ev.res.v) = Len(ev.n) /\ (ev.shape = <<>> \/ ev.res.shape = ev.shape)
CombFailing(st, ev) ==
  IF ~Shape(ev) THEN {<<"one_value_per_argument", ev.key \o " " \o ev.res.k \o ev.res.e>>}
  ELSE UNION {LET w == IF ev.f = "comb" THEN Binomial(ev.n[i], ev.r[i]) ELSE Falling(ev.n[i], ev.r[i])
                  s == IF ev.f = "comb" THEN BinomialSize(ev.n[i], ev.r[i]) ELSE FallingSize(ev.n[i], ev.r[i])
                  g == ev.res.v[i]
                  \* the logarithm is a difference of log gamma functions
                  lt == Fl("1e-14") ** (10 ++ ((FAbs(ev.n[i]) ++ ev.r[i]) ** (1 ++ FLn(1 ++ FAbs(ev.n[i])))))
              IN IF (IF ev.log THEN (IF FEq(w, 0) THEN FEq(g, NegInf) ELSE FClose(g, FLn(FAbs(w)), Fl("1e-12"), lt)) ELSE FClose(g, w, Fl("1e-9"), Fl("1e-12") ** s)) THEN {}
                 ELSE Bad("generalised_binomial", ev, IF ev.log THEN FLn(FAbs(w)) ELSE w, g, ev.f \o "(" \o FShow(ev.n[i]) \o ", " \o ToString(ev.r[i]) \o ")") : i \in 1..Len(ev.n)}
SignFailing(st, ev) ==
  IF ~Shape(ev) THEN {<<"one_value_per_argument", ev.key \o " " \o ev.res.k \o ev.res.e>>}
  ELSE UNION {LET w == FallingSign(ev.p, ev.q, ev.n[i], ev.d[i]) IN IF FEq(ev.res.v[i], w) THEN {} ELSE Bad("sign_of_falling_factorial", ev, FInt(w), ev.res.v[i], "") : i \in 1..Len(ev.n)}
PolyFailing(st, ev) ==
  IF ev.res.k = "exc" \/ Len(ev.re) # Len(ev.x) THEN {<<"one_value_per_argument", ev.key \o " " \o ev.res.k \o ev.res.e>>}
  ELSE UNION {LET z == ev.x[i]
                  h == Loop(Len(ev.c), <<Fl("0"), Fl("0")>>, LAMBDA acc, k : <<(ev.c[Len(ev.c) + 1 - k] ++ (acc[1] ** z[1])) -- (acc[2] ** z[2]), (acc[1] ** z[2]) ++ (acc[2] ** z[1])>>)
                  m == FSqrt(Sq(z[1]) ++ Sq(z[2]))
                  size == Horner([k \in 1..Len(ev.c) |-> FAbs(ev.c[k])], m)
                  tol == Fl("1e-13") ** (size ++ Fl("1e-300"))
              IN IF FClose(ev.re[i], h[1], 0, tol) /\ FClose(ev.im[i], h[2], 0, tol) THEN {} ELSE Bad("polynomial_value", ev, h[1], ev.re[i], "at " \o FShow(z[1]) \o " + i " \o FShow(z[2])) : i \in 1..Len(ev.x)}
\* rounding error of a formula whose terms have total log size ls for a result of log size lw
Err(m, ls, lw, d) == (Eps ** ((IF m \in {"sort", "log", "pois"} THEN 40 ** (5 ++ d) ELSE 8 ** (5 ++ d)))) ** FExp(ls -- lw)
CoefErr(ev, k, lc) ==
  CASE ev.m \in {"sort", "horner", "direct"} -> Err(ev.m, StirlingSize(ev.d, k, ev.al), lc[k], ev.d)
    [] ev.m \in {"log", "ds.direct", "diff"} -> IF FEq(ev.al, 1) THEN Fl("1e-10") ELSE Err(ev.m, (SibuyaSize(ev.d, k, ev.al) ++ LnFact(ev.d)) -- LnFact(k), lc[k], ev.d)
    [] OTHER -> Fl("1e-10")
\* is g the value exp(lw) (or its logarithm) up to a relative error e
Good(log, g, lw, e) == IF Fl("0.1") \prec e THEN TRUE
                       ELSE IF FEq(lw, NegInf) THEN (IF log THEN FEq(g, NegInf) ELSE FClose(g, 0, 0, Fl("1e-300")))
                       ELSE IF log THEN FClose(g, lw, Fl("1e-12"), e ++ (Fl("1e-12")))
                       ELSE IF Fl("700") \prec lw THEN TRUE ELSE FClose(g, FExp(lw), e ++ (Fl("1e-12") ** (1 ++ FAbs(lw))), Fl("1e-300"))
CoefFailing(st, ev) ==
  IF ev.res.k # "arr" \/ ev.res.shape # <<ev.d>> THEN {<<"one_value_per_argument", ev.key \o " " \o ev.res.k \o ev.res.e>>}
  ELSE LET lc == GumbelLogCoef(ev.d, ev.al)
       IN UNION {LET e == IF ev.m \in {"sort", "horner", "direct"} /\ FEq(ev.al, 1) /\ k < ev.d THEN Fl("1") ELSE CoefErr(ev, k, lc)
                 IN IF Good(ev.log, ev.res.v[k], lc[k], e) THEN {} ELSE Bad("gumbel_coefficient", ev, IF ev.log THEN lc[k] ELSE FExp(lc[k]), ev.res.v[k], "k = " \o ToString(k) \o " error bound " \o FShow(e)) : k \in 1..ev.d}
PolErr(ev, lc, lx, lw) ==
  CASE ev.m = "pois" -> Err("pois", PoissonSize(ev.d, ev.al, lx), lw, ev.d)
    [] ev.m \in {"default", "recursive"} -> IF ev.m = "default" THEN (IF ev.d \in 21..30 THEN Fl("1e-5") ELSE Fl("1e-6")) ELSE Fl("1e-9")
    [] OTHER -> \* every coefficient carries its own error
         LET e == EagerS([k \in 1..ev.d |-> CoefErr(ev, k, lc)]) m == MaxSeq([k \in 1..ev.d |-> lc[k] ++ (k ** lx)])
         IN IF Fl("0.1") \prec MaxSeq(e) THEN Fl("1") ELSE MaxSeq(e) 
GPolyFailing(st, ev) ==
  IF ev.res.k # "arr" \/ ev.res.shape # ev.shape \/ Len(ev.res.v) # Len(ev.lx) THEN {<<"one_value_per_argument", ev.key \o " " \o ev.res.k \o ev.res.e>>}
  ELSE LET lc == GumbelLogCoef(ev.d, ev.al)
       IN UNION {LET lw == GumbelLogPoly(lc, ev.lx[i]) e == PolErr(ev, lc, ev.lx[i], lw)
                 IN IF Good(ev.log, ev.res.v[i], lw, e) THEN {} ELSE Bad("gumbel_polynomial", ev, IF ev.log THEN lw ELSE FExp(lw), ev.res.v[i], "log x = " \o FShow(ev.lx[i]) \o " error bound " \o FShow(e)) : i \in 1..Len(ev.lx)}
SibuyaFailing(st, ev) ==
  IF ~Shape(ev) THEN {<<"one_value_per_argument", ev.key \o " " \o ev.res.k \o ev.res.e>>}
  ELSE UNION {LET x == ev.x[i] n == ev.n[i] lw == SibuyaLog(x, n, ev.al)
                  e == IF FEq(ev.al, 1) \/ n = 0 \/ x < n THEN Fl("1e-12") ELSE Err(ev.m, SibuyaSize(x, n, ev.al), lw, x)
              IN IF Good(ev.log, ev.res.v[i], lw, e) THEN {} ELSE Bad("sibuya_sum_probability", ev, IF ev.log THEN lw ELSE FExp(lw), ev.res.v[i], "x = " \o ToString(x) \o " n = " \o ToString(n) \o " error bound " \o FShow(e)) : i \in 1..Len(ev.n)}
TFailing(st, ev) ==
  IF ev.refuse THEN Refused(ev) ELSE
  CASE ev.op = "entry" -> IntFailing(st, ev)
    [] ev.op = "row" -> RowFailing(st, ev)
    [] ev.op = "comb" -> CombFailing(st, ev)
    [] ev.op = "sign" -> SignFailing(st, ev)
    [] ev.op = "polyn" -> PolyFailing(st, ev)
    [] ev.op = "coef" -> CoefFailing(st, ev)
    [] ev.op = "gpoly" -> GPolyFailing(st, ev)
    [] ev.op = "sibuya" -> SibuyaFailing(st, ev)
=============================================================================
