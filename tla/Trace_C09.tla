------------------------------ MODULE Trace_C09 ------------------------------
(* Recorded estimations.                                                    *)
EXTENDS Replay, Likelihood, Measures, Corr, Correlation

TInit(s) == <<>>
TNext(st, ev) == st
Elliptical == {"gaussian", "student"}
Show(v) == ToString([i \in 1..Len(v) |-> FShow(v[i])])
Cop(ev, p) == [fam |-> ev.fam, d |-> ev.d, par |-> p]

(* ---- inversion of rank correlations ---- *)
Sample(ev) == IF ev.topobs THEN PobsRows(ev.rows, ev.ties) ELSE ev.rows
RankCorr(ev) ==
  LET P == Sample(ev)
  IN [k \in 1..NPairs(ev.d) |-> LET p == PairAt(ev.d, k - 1) IN
        CorrelationOf(IF ev.method = "itau" THEN "kendall" ELSE "spearman", Col(P, p[1]), Col(P, p[2]))]
\* the inverted matrix itself when it is valid (up to rounding of the sines), a valid one otherwise
RepairedUpTo(d, raw, got) == IF SemiDef(d, raw) THEN \A k \in 1..NPairs(d) : FClose(got[k], raw[k], 0, Fl("1e-6")) ELSE Repaired(d, raw, got)
InversionFailing(ev) ==
  LET r == RankCorr(ev) IN
  IF \E k \in 1..Len(r) : FIsNaN(r[k]) \/ (ev.fam \notin Elliptical /\ Fl("0.999") \prec FAbs(r[k])) THEN {}   \* no finite parameter
  ELSE IF ev.fam \in Archimedean THEN
    LET want == Mean([k \in 1..Len(r) |-> ITauOf(ev.fam, r[k])])
        lower == CASE ev.fam = "clayton" -> IF ev.d = 2 THEN Fl("-1") ELSE Fl("0") [] ev.fam = "frank" -> IF ev.d = 2 THEN NegInf ELSE Fl("0") [] OTHER -> Fl("1")
    IN IF want \prec lower THEN {}                   \* outside the family
       ELSE IF ev.res.k = "exc" THEN {<<"inversion_succeeds", ev.res.e>>}
       ELSE IF Len(ev.par) = 1 /\ FClose(ev.par[1], want, Fl("1e-7"), Fl("1e-8")) THEN {} ELSE {<<"inversion_is_mean_of_inverted_rank_correlations", "expected " \o FShow(want) \o " got " \o Show(ev.par)>>}
  ELSE
    LET raw == [k \in 1..Len(r) |-> IF ev.method = "itau" THEN ITauOf("gaussian", r[k]) ELSE IRhoOf("gaussian", r[k])]
        got == IF ev.fam = "student" THEN SubSeq(ev.par, 2, Len(ev.par)) ELSE ev.par
    IN IF SemiDef(ev.d, raw) /\ ~ClearlyPosDef(ev.d, raw) THEN {}       \* singular: no density
       ELSE IF ev.res.k = "exc" THEN {<<"inversion_succeeds", ev.res.e>>}
       ELSE (IF Len(got) = Len(raw) /\ RepairedUpTo(ev.d, raw, got) THEN {} ELSE {<<"inversion_is_nearest_valid_correlation", "inverted " \o Show(raw) \o " got " \o Show(got)>>})
       \cup (IF ev.fam = "student" /\ ~FEq(ev.par[1], ev.df0) THEN {<<"inversion_keeps_degrees_of_freedom", FShow(ev.par[1])>>} ELSE {})

(* ---- maximum likelihood ---- *)
Valid(ev, p) ==
  CASE ev.fam = "clayton" -> (IF ev.d = 2 THEN Fl("-1") ELSE Fl("0")) \preceq p[1]
    [] ev.fam = "frank" -> ev.d = 2 \/ 0 \preceq p[1]
    [] ev.fam = "gumbel" -> 1 \preceq p[1]
    [] ev.fam = "gaussian" -> ClearlyPosDef(ev.d, p)
    [] ev.fam = "student" -> (0 \prec p[1]) /\ ClearlyPosDef(ev.d, SubSeq(p, 2, Len(p)))
Rows(ev, p) == LET P == Sample(ev) IN FSum([i \in 1..Len(P) |-> LogPdf(Cop(ev, p), P[i])])
Neighbours(ev) ==
  LET p == ev.par
      Coords == IF ev.fixdf THEN 2..Len(p) ELSE 1..Len(p)
      Up(i) == IF ev.fam = "student" /\ i = 1 THEN p[i] ** Fl("1.2") ELSE IF ev.fam \in Elliptical THEN p[i] ++ Fl("0.04") ELSE p[i] ++ (Fl("0.05") ** FMax(FAbs(p[i]), Fl("0.5")))
      Down(i) == IF ev.fam = "student" /\ i = 1 THEN p[i] ** Fl("0.8") ELSE IF ev.fam \in Elliptical THEN p[i] -- Fl("0.04") ELSE p[i] -- (Fl("0.05") ** FMax(FAbs(p[i]), Fl("0.5")))
  IN {q \in UNION {{[p EXCEPT ![i] = Up(i)], [p EXCEPT ![i] = Down(i)]} : i \in Coords} : Valid(ev, q)}
MlFailing(ev) ==
  IF ev.res.k = "exc" THEN {<<"maximum_likelihood_succeeds", ev.res.e>>}
  ELSE IF ~ev.converged THEN {}
  ELSE IF ~Valid(ev, ev.par) THEN {<<"estimate_is_admissible", Show(ev.par)>>}
  ELSE
    LET best == Rows(ev, ev.par)
    IN (IF ev.small THEN
             (IF ev.start # <<>> /\ Valid(ev, ev.start) /\ (best ++ Fl("1e-4")) \prec Rows(ev, ev.start) THEN {<<"at_least_as_likely_as_the_start", Show(ev.start) \o " beats " \o Show(ev.par)>>} ELSE {})
             \cup {<<"at_least_as_likely_as_neighbours", Show(q) \o " beats " \o Show(ev.par)>> : q \in {q \in Neighbours(ev) : (best ++ Fl("0.01")) \prec Rows(ev, q)}}
        ELSE {})
(* ---- large samples from a known parameter ---- *)
RecoverFailing(ev) ==
  IF ev.res.k = "exc" THEN {<<"large_sample_fit_succeeds", ev.res.e>>}
  ELSE IF ~ev.converged THEN {<<"large_sample_fit_converges", "">>}
  ELSE LET D(i) == ev.fam = "student" /\ i = 1
           Far(i) == IF D(i) THEN ev.method = "ml" /\ ((ev.par[1] \prec (ev.true[1] // 3)) \/ ((3 ** ev.true[1]) \prec ev.par[1]))
                     ELSE ~FClose(TauOf(ev.fam, ev.par[i]), TauOf(ev.fam, ev.true[i]), 0, Fl("0.1"))
       IN IF Len(ev.par) # Len(ev.true) THEN {<<"estimate_has_the_size_of_the_parameter", Show(ev.par)>>}
          ELSE IF \E i \in 1..Len(ev.par) : Far(i) THEN {<<"large_sample_recovers_the_parameter", Show(ev.true) \o " estimated as " \o Show(ev.par)>>} ELSE {}
FixedDf(ev) == IF ev.fixdf /\ ev.res.k # "exc" /\ ev.converged /\ ~FClose(ev.par[1], ev.df0, Fl("1e-6"), 0)
               THEN {<<"fixed_degrees_of_freedom", FShow(ev.df0) \o " became " \o FShow(ev.par[1])>>} ELSE {}
TFailing(st, ev) ==
  CASE ev.op = "inversion" -> InversionFailing(ev)
    [] ev.op = "ml" -> MlFailing(ev) \cup FixedDf(ev)
    [] ev.op = "recover" -> RecoverFailing(ev) \cup FixedDf(ev)
==============================================================================
