------------------------------ MODULE Trace_C03 ------------------------------
(* Recorded densities against the densities of the defining distribution    *)
(* functions.  The state is the copula's current parameter vector.          *)
EXTENDS Replay, Copulas

TInit(s) == <<>>
TNext(st, ev) == IF ev.op = "params" THEN ev.par ELSE st

RTol(c, u) ==
  Fl("1e-6") ++ (IF c.fam = "clayton" /\ Th(c) \prec 0 THEN LET s == SumSeq(u, LAMBDA x : FExpm1(FNeg(Th(c)) ** FLn(x)))
                                                              IN FAbs((Fl("1e-13") // Th(c)) // FMax(1 ++ s, Fl("1e-300")))
                 ELSE 0)
Inside(u) == \A i \in 1..Len(u) : (0 \preceq u[i]) /\ (u[i] \preceq 1)
\* a Clayton copula with negative parameter has no mass where its distribution function is 0
Edge(c, u) == c.fam = "clayton" /\ Th(c) \prec 0 /\
              LET s == SumSeq(u, LAMBDA x : FExpm1(FNeg(Th(c)) ** FLn(x))) IN FAbs(s ++ 1) \prec Fl("1e-9")
Good(c, u, v) == IF ~Inside(u) THEN FIsNaN(v) ELSE Edge(c, u) \/ FClose(v, Pdf(c, u), RTol(c, u), Fl("1e-280"))
TFailing(st, ev) ==
  IF ev.op = "params" THEN (IF ev.res.k = "exc" THEN {<<"accepts_parameter", ev.res.e>>} ELSE {})
  ELSE LET c == [fam |-> ev.fam, d |-> ev.d, par |-> st] IN
       IF ev.res.k \notin {"num", "arr", "series"} \/ Len(ev.res.v) # Len(ev.u)
         THEN {<<"returns_value_per_point", ev.res.k \o " " \o ev.res.e>>}
       ELSE {<<"is_density", "par " \o ToString(MapSeq(st, FShow)) \o " at " \o ToString(MapSeq(ev.u[i], FShow)) \o " expected "
                 \o (IF Inside(ev.u[i]) THEN FShow(Pdf(c, ev.u[i])) ELSE "NaN") \o " got " \o FShow(ev.res.v[i])>>
             : i \in {i \in 1..Len(ev.u) : ~Good(c, ev.u[i], ev.res.v[i])}}
==============================================================================
