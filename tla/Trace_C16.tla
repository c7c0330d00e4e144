------------------------------ MODULE Trace_C16 ------------------------------
(* One session per goodness-of-fit test.  The copula class under test       *)
(* records what is done with it: fit, draw and evaluation events, each with *)
(* the copula instance it happened on, in the order they happened; then the *)
(* result of the test.                                                      *)
(* State: what every instance was fitted to and evaluated at, and all draws.*)
(* In an echo session the class returns the data's own ranks from every    *)
(* draw, so that every replicate's statistic equals the statistic.         *)
EXTENDS Replay, Bootstrap, Likelihood

TInit(s) == [rows |-> s.init.rows, ties |-> s.init.ties, fitties |-> s.init.fitties, reps |-> s.init.reps, d |-> s.init.d, fam |-> s.init.fam,
             opts |-> s.init.opts, echo |-> s.init.echo, main |-> "", fits |-> <<>>, evals |-> <<>>, draws |-> <<>>]
\* the ranks a fit was based on, from the data and options it was given
FitRanks(ev) == IF ev.topobs THEN RankRows(ev.rows, ev.ties) ELSE [i \in 1..Len(ev.rows) |-> [j \in 1..Len(ev.rows[1]) |-> FToInt(((2 * (Len(ev.rows) + 1)) ** ev.rows[i][j]) ++ Half)]]
EvalRanks(pts) == Eager([i \in 1..Len(pts) |-> Eager([j \in 1..Len(pts[1]) |-> FToInt(((2 * (Len(pts) + 1)) ** pts[i][j]) ++ Half)])])
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
TNext(st, ev) ==
  CASE ev.op = "fit" -> [st EXCEPT !.main = IF @ = "" THEN ev.inst ELSE @,
                                   !.fits = Put(@, ev.inst, [ranks |-> FitRanks(ev), par |-> ev.par, opts |-> ev.opts])]
    [] ev.op = "eval" -> [st EXCEPT !.evals = Put(@, ev.inst, IF ev.inst \in DOMAIN @ THEN [pts |-> @[ev.inst].pts \o ev.pts, val |-> @[ev.inst].val \o ev.val] ELSE [pts |-> ev.pts, val |-> ev.val])]
    [] ev.op = "draw" -> [st EXCEPT !.draws = Append(@, [inst |-> ev.inst, rows |-> ev.rows, par |-> ev.par])]
    [] OTHER -> st

Bag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Cardinality({k \in 1..Len(s) : s[k] = s[i]}) = Cardinality({k \in 1..Len(t) : t[k] = s[i]})
SamePar(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FEq(a[i], b[i])
OnLattice(pts) == \A i \in 1..Len(pts) : \A j \in 1..Len(pts[1]) : LET x == (2 * (Len(pts) + 1)) ** pts[i][j] IN FClose(x, FFloor(x ++ Half), 0, Fl("1e-6"))

ResultFailing(st, ev) ==
  LET r == ev.res n == Len(st.rows)
      tied == HasTies(st.rows)
      rule2 == IF tied THEN st.fitties ELSE st.ties
      main == st.main
      D == RankRows(st.rows, st.ties)
      others == DOMAIN st.fits \ {main}
      Stat(x) == SnStatistic(EvalRanks(st.evals[x].pts), st.evals[x].val)
      S == Pattern(st.rows, st.ties)
      S2 == Pattern(st.rows, rule2)
      \* expected ranks of the sample drawn, for evaluation and for fitting
      ForEval(q) == IF tied THEN Imposed(st.draws[q].rows, S) ELSE RankRows(st.draws[q].rows, st.ties)
      ForFit(q) == IF tied THEN Imposed(st.draws[q].rows, S2) ELSE RankRows(st.draws[q].rows, rule2)
      fe == Eager([q \in 1..Len(st.draws) |-> ForEval(q)])
      ff == Eager([q \in 1..Len(st.draws) |-> ForFit(q)])
      From(x) == {q \in 1..Len(st.draws) : Bag(fe[q], EvalRanks(st.evals[x].pts))}
      FromFit(x) == {q \in 1..Len(st.draws) : Bag(ff[q], st.fits[x].ranks)}
  IN
  IF r.k # "gof" THEN {<<"test_succeeds", r.k \o " " \o r.e>>}
  ELSE IF main = "" THEN {<<"fits_the_class_under_test", "no fit">>}
  ELSE IF main \notin DOMAIN st.evals \/ \E x \in others : x \notin DOMAIN st.evals THEN {<<"evaluates_every_fitted_copula", "">>}
  ELSE
     (IF st.fam # "indep" /\ ~SamePar(r.par, st.fits[main].par) THEN {<<"returns_the_fitted_parameters", ToString([i \in 1..Len(r.par) |-> FShow(r.par[i])])>>} ELSE {})
\cup (IF st.fits[main].ranks = RankRows(st.rows, rule2) THEN {} ELSE {<<"fits_to_the_pseudo_observations", rule2 \o (IF tied THEN " with ties" ELSE "")>>})
\cup (IF OnLattice(st.evals[main].pts) /\ EvalRanks(st.evals[main].pts) = D THEN {} ELSE {<<"evaluates_at_the_pseudo_observations", st.ties>>})
\cup {<<"fit_options_are_passed_on", x>> : x \in {x \in DOMAIN st.fits : st.fits[x].opts # st.opts}}
\cup (LET t == Stat(main) IN
       (IF FClose(r.stat, t, Fl("1e-9"), Fl("1e-12")) THEN {} ELSE {<<"statistic_compares_fitted_and_empirical", "expected " \o FShow(t) \o " got " \o FShow(r.stat)>>})
  \cup (IF st.fam \in {"clayton", "frank", "gumbel", "indep"} THEN
          LET c == [fam |-> st.fam, d |-> st.d, par |-> r.par]
              P == PobsRows(st.rows, st.ties)
              t2 == SnStatistic(D, [i \in 1..n |-> Cdf(c, P[i])])
          IN IF FClose(r.stat, t2, Fl("1e-6"), Fl("1e-8")) THEN {} ELSE {<<"statistic_is_that_of_the_family", "expected " \o FShow(t2) \o " got " \o FShow(r.stat)>>}
        ELSE {})
  \cup (IF Cardinality(others) # st.reps THEN {<<"one_fit_per_replicate", ToString(Cardinality(others))>>}
        ELSE LET T == [x \in others |-> Stat(x)]
                 sure == Cardinality({x \in others : IF st.echo THEN t \preceq T[x] ELSE (t ++ Fl("1e-12")) \prec T[x]})
                 maybe == Cardinality({x \in others : (t -- Fl("1e-12")) \preceq T[x]})
                 k == (r.p ** (st.reps + 1)) -- Half
             IN (IF \E c \in sure..maybe : FClose(k, c, 0, Fl("1e-6")) THEN {} ELSE {<<"p_value_counts_replicates_at_least_as_large", "between " \o ToString(sure) \o " and " \o ToString(maybe) \o " of " \o ToString(st.reps) \o " got p = " \o FShow(r.p)>>})))
\cup (IF Len(st.draws) < st.reps THEN {<<"one_draw_per_replicate", ToString(Len(st.draws))>>} ELSE {})
\cup {<<"replicates_are_drawn_from_the_fitted_copula", st.draws[q].inst>> : q \in {q \in 1..Len(st.draws) : ~SamePar(st.draws[q].par, st.fits[main].par) \/ Len(st.draws[q].rows) # n \/ Len(st.draws[q].rows[1]) # st.d}}
\cup {<<"replicates_differ", ToString(p)>> : p \in IF st.echo THEN {} ELSE {p \in (1..Len(st.draws)) \X (1..Len(st.draws)) : p[1] < p[2] /\ st.draws[p[1]].rows = st.draws[p[2]].rows}}
\cup (IF tied /\ st.ties = "ordinal" THEN {} ELSE
       {<<"replicates_carry_the_tie_pattern_of_the_data", x>> : x \in {x \in others : ~OnLattice(st.evals[x].pts) \/ LET E == EvalRanks(st.evals[x].pts) IN [j \in 1..st.d |-> SortedInts([i \in 1..Len(E) |-> E[i][j]])] # S}}
  \cup {<<"replicates_keep_the_dependence_of_the_draw", x>> : x \in {x \in others : From(x) = {}}})
\cup (IF tied /\ rule2 = "ordinal" THEN {} ELSE {<<"replicates_are_fitted_by_the_fitting_tie_rule", x>> : x \in {x \in others : FromFit(x) = {}}})
TFailing(st, ev) == IF ev.op = "result" THEN ResultFailing(st, ev)
                    ELSE IF ev.op = "refuse" THEN IF ev.res.k = "exc" THEN {} ELSE {<<"refuses_" \o ev.what, ev.res.k>>}
                    ELSE {}
==============================================================================
