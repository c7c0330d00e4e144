------------------------------ MODULE Trace_C15 ------------------------------
(* Recorded symmetry tests.  State: the sample in force.                    *)
EXTENDS Replay, Symmetry

TInit(s) == [rows |-> s.init.rows]
TNext(st, ev) == IF ev.op = "change" THEN [st EXCEPT !.rows = ev.rows] ELSE st

Column(rows, j) == [i \in 1..Len(rows) |-> rows[i][j]]
RankCols(rows, J, ties) == Eager([j \in 1..Len(J) |-> Eager(RRanks2(Column(rows, J[j]), ties))])
Rounded(x) == FFloor(x ++ Half)
\* the lattice of p-values: (k + 1/2)/(N + 1)
KOf(p, N) == (p ** (N + 1)) -- Half
PFailing(ev, s) ==
  LET k == KOf(ev.res.p, ev.N)
  IN (IF (0 \preceq (k ++ Fl("1e-6"))) /\ (k \preceq (ev.N ++ Fl("1e-6"))) /\ FClose(k, Rounded(k), 0, Fl("1e-6")) THEN {}
      ELSE {<<"p_value_lattice", "N = " \o ToString(ev.N) \o " p = " \o FShow(ev.res.p)>>})
     \* every replicate is non-negative, so none is below a statistic of zero
     \cup (IF FEq(s, 0) /\ ~FClose(k, ev.N, 0, Fl("1e-6")) THEN {<<"p_value_counts_replicates_at_least_as_large", FShow(ev.res.p)>>} ELSE {})
     \cup (IF ev.expect = "small" /\ ~(ev.res.p \prec Fl("0.1")) THEN {<<"p_value_small_for_asymmetric_data", FShow(ev.res.p)>>} ELSE {})
     \cup (IF ev.expect = "large" /\ ~(Fl("0.05") \prec ev.res.p) THEN {<<"p_value_not_small_for_symmetric_data", FShow(ev.res.p)>>} ELSE {})
StatFailing(ev, s) ==
  IF ev.res.k # "stat" THEN {<<"test_succeeds", ev.res.k \o " " \o ev.res.e>>}
  ELSE (IF FClose(ev.res.s, s, Fl("1e-10"), Fl("1e-12")) THEN {} ELSE {<<"statistic", "expected " \o FShow(s) \o " got " \o FShow(ev.res.s)>>})
       \cup PFailing(ev, s)
ExchFailing(st, ev) ==
  LET R == RankCols(st.rows, <<ev.i, ev.j>>, ev.ties) IN
  IF ev.m > 0 /\ ~GridClear(R, ev.m) THEN (IF ev.res.k = "stat" THEN PFailing(ev, ev.res.s) ELSE {<<"test_succeeds", ev.res.k \o " " \o ev.res.e>>})
  ELSE StatFailing(ev, ExchStat(R, ev.m))
\* the share of replicates at least as large as the statistic is that of the multiplier bootstrap
LawFailing(st, ev) ==
  LET R == RankCols(st.rows, <<ev.i, ev.j>>, ev.ties)
      s == ExchStat(R, ev.m)
      M == MultiplierReplicates(R, ev.m, ev.Z)
      k2 == Cardinality({i \in 1..Len(M) : s \preceq M[i]})
      p1 == ev.res.p
      p2 == k2 // Len(M)
      pb == (p1 ++ p2) ** Half
      v == ((pb ** (1 -- pb)) ++ Fl("0.002")) ** ((1 // ev.N) ++ (1 // Len(M)))
  IN StatFailing(ev, s)
     \cup (IF ev.res.k = "stat" /\ ~(FAbs(p1 -- p2) \preceq (4 ** FSqrt(v))) THEN {<<"p_value_of_the_multiplier_bootstrap", "expected about " \o FShow(p2) \o " got " \o FShow(p1)>>} ELSE {})
\* the share of the tosses of the bootstrap lies between those for every and for some order of equal values
ShareFailing(ev, sh) ==
  IF ev.res.k # "stat" THEN {}
  ELSE LET Dev(p) == Fl("4.5") ** FSqrt(((p ** (1 -- p)) ++ Fl("0.001")) // ev.N)
       IN IF (sh[1] -- Dev(sh[1])) \preceq ev.res.p /\ ev.res.p \preceq (sh[2] ++ Dev(sh[2])) THEN {}
          ELSE {<<"p_value_of_the_bootstrap", "expected " \o FShow(sh[1]) \o " to " \o FShow(sh[2]) \o " got " \o FShow(ev.res.p)>>}
RadFailing(st, ev) ==
  LET R == RankCols(st.rows, [j \in 1..Len(st.rows[1]) |-> j], ev.ties)
      s == RadialStat(R)
      Exact(v) == FClose(ev.res.s, v, Fl("1e-10"), Fl("1e-12"))
  IN IF ev.res.k = "stat" /\ ~Exact(s) /\ Exact(RadialStatRounded(R))
     THEN {<<"statistic_up_to_the_rounding_of_1_minus_u", "expected " \o FShow(s) \o " got " \o FShow(ev.res.s)>>} \cup PFailing(ev, ev.res.s)
     ELSE StatFailing(ev, s)
TFailing(st, ev) ==
  CASE ev.op = "exch" -> ExchFailing(st, ev)
    [] ev.op = "law" -> LawFailing(st, ev)
    [] ev.op = "exch bootstrap" -> LET R == RankCols(st.rows, <<ev.i, ev.j>>, ev.ties) IN
         ExchFailing(st, ev) \cup (IF HasTies(R) /\ (ev.m > 0 => GridClear(R, ev.m) /\ GridClearAlways(Len(R[1]), ev.m)) THEN ShareFailing(ev, ExchShares(R, ev.m)) ELSE {})
    [] ev.op = "radial bootstrap" -> LET R == RankCols(st.rows, [j \in 1..Len(st.rows[1]) |-> j], ev.ties) IN
         RadFailing(st, ev) \cup ShareFailing(ev, RadialShares(R))
    [] ev.op = "radial" -> RadFailing(st, ev)
    [] ev.op = "change" -> {}
    [] ev.op = "refuse" -> IF ev.res.k = "exc" THEN {} ELSE {<<"refuses_" \o ev.what, ev.res.k>>}
==============================================================================
