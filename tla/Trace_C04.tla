------------------------------ MODULE Trace_C04 ------------------------------
(* Recorded pairs (plain value, logarithm) and log-likelihoods.             *)
EXTENDS Replay, Likelihood

TInit(s) == <<>>
TNext(st, ev) == IF ev.op = "params" THEN ev.par ELSE st

Vals(o) == o.v
Numeric(o) == o.k \in {"num", "arr", "series", "seq"}
\* plain values that leave the range in which a double is accurate say little about their logarithm
LogOk(ev, p, l) ==
  LET noise == IF ev.meth = "cdf" /\ ev.d >= 3 /\ ev.fam \in {"gaussian", "gmc", "marginal_gaussian"} THEN Fl("1e-4") ELSE 0
  IN IF FIsNaN(p) THEN FIsNaN(l) \/ p = l
     ELSE IF FEq(p, 0) THEN FEq(l, NegInf) \/ l \prec Fl("-690")
     ELSE IF FAbs(p) \prec Fl("1e-290") THEN l \prec Fl("-660")
     ELSE IF ~FIsFinite(p) THEN FEq(l, Inf) \/ Fl("690") \prec l
     ELSE FClose(l, FLn(FAbs(p)), Fl("1e-9"), Fl("1e-9") ++ (noise // FAbs(p)))
PairFailing(ev) ==
  IF ~Numeric(ev.plain) \/ ~Numeric(ev.res) \/ Len(ev.plain.v) # Len(ev.res.v)
    THEN (IF ev.plain.k = "exc" /\ ev.res.k = "exc" THEN {<<"evaluates", ev.plain.e>>} ELSE {<<"same_form_with_log", ev.plain.k \o ev.plain.e \o " " \o ev.res.k \o ev.res.e>>})
  ELSE {<<"log_is_logarithm", "plain " \o FShow(ev.plain.v[i]) \o " log " \o FShow(ev.res.v[i])>> :
           i \in {i \in 1..Len(ev.res.v) : ~LogOk(ev, ev.plain.v[i], ev.res.v[i])}}

NotPsd(st, ev) ==
  ev.fam \in {"gaussian", "student"} /\ ~IsPosDef(CorrFromVec(ev.d, IF ev.fam = "student" THEN SubSeq(st, 2, Len(st)) ELSE st))
LikFailing(st, ev) ==
  IF ev.res.k # "num" THEN {<<"loglik_is_a_number", ev.res.k \o " " \o ev.res.e>>}
  ELSE IF NotPsd(st, ev) THEN (IF FEq(ev.res.v[1], NegInf) THEN {} ELSE {<<"invalid_matrix_has_loglik_minus_infinity", FShow(ev.res.v[1])>>})
  ELSE IF ev.lp.k = "exc" THEN {<<"density_at_pseudo_observations", ev.lp.e>>}
  ELSE
    LET P == IF ev.topobs THEN PobsRows(ev.rows, ev.ties) ELSE ev.rows
        size == 1 ++ FSum([i \in 1..Len(ev.lp.v) |-> FAbs(ev.lp.v[i])])
        total == FSum(ev.lp.v)
    IN (IF \E i \in 1..Len(P) : \E j \in 1..Len(P[1]) : ~FClose(P[i][j], ev.pts[i][j], Fl("1e-12"), 0)
          THEN {<<"harness_points_are_pseudo_observations", ToString(ev.ties)>>} ELSE {})
       \cup (IF Len(ev.lp.v) # Len(ev.rows) THEN {<<"one_log_density_per_row", ToString(Len(ev.lp.v))>>} ELSE {})
       \cup (IF FClose(ev.res.v[1], total, 0, Fl("1e-10") ** size) \/ (~FIsFinite(total) /\ FEq(total, ev.res.v[1])) THEN {}
             ELSE {<<"loglik_is_sum_of_log_densities", "expected " \o FShow(total) \o " got " \o FShow(ev.res.v[1])>>})
       \cup (IF ev.fam \notin Archimedean \cup {"gaussian", "student", "indep"} \/ Len(P) > 12 \/ ev.d > 5 THEN {}
             ELSE LET c == [fam |-> ev.fam, d |-> ev.d, par |-> st]
                      spec == FSum([i \in 1..Len(P) |-> LogPdf(c, P[i])])
                  IN IF FClose(ev.res.v[1], spec, Fl("1e-6"), Fl("1e-6") ** size) THEN {}
                     ELSE {<<"loglik_of_the_family", "expected " \o FShow(spec) \o " got " \o FShow(ev.res.v[1])>>})
TFailing(st, ev) ==
  CASE ev.op = "params" -> IF ev.res.k = "exc" THEN {<<"accepts_parameter", ev.res.e>>} ELSE {}
    [] ev.op = "pair" -> PairFailing(ev)
    [] ev.op = "loglik" -> LikFailing(st, ev)
    [] ev.op = "tiled" -> IF ev.first.k # "num" \/ ~FIsFinite(ev.first.v[1]) \/ (ev.res.k = "num" /\ FClose(ev.res.v[1], ev.times ** ev.first.v[1], Fl("1e-9"), Fl("1e-9") ** ev.times)) THEN {}
         ELSE {<<"loglik_is_sum_of_log_densities", ToString(ev.times) \o " times " \o FShow(ev.first.v[1]) \o " got " \o ev.res.k \o ev.res.e \o (IF ev.res.k = "num" THEN FShow(ev.res.v[1]) ELSE "")>>}
    [] ev.op = "reordered" -> IF ev.res.k = "num" /\ ev.first.k = "num" /\ FClose(ev.res.v[1], ev.first.v[1], Fl("1e-9"), Fl("1e-9")) THEN {}
                              ELSE {<<"row_order_is_irrelevant", ev.res.k \o ev.first.k>>}
==============================================================================
