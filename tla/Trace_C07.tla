------------------------------ MODULE Trace_C07 ------------------------------
(* Recorded writes and reads of correlation matrices against Corr.tla.  The *)
(* state is the vector of pairwise correlations held by the copula; after a *)
(* repair it is whatever valid matrix the copula shows.                     *)
EXTENDS Replay, Corr

TInit(s) == [d |-> s.init.d, c |-> [k \in 1..NPairs(s.init.d) |-> 0]]
Holds(ev) == ev.reads.params
TNext(st, ev) == IF Len(Holds(ev)) = Len(st.c) THEN [st EXCEPT !.c = Holds(ev)] ELSE st

SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FEq(a[i], b[i])
\* every way of reading shows the same matrix, symmetric with unit diagonal
ReadFailing(d, r) ==
  LET R == CorrFromVec(d, r.params)
      flat == [k \in 1..(d * d) |-> R[((k - 1) \div d) + 1][((k - 1) % d) + 1]]
  IN (IF SameSeq(r.pos, r.params) THEN {} ELSE {<<"read_by_position", ToString(MapSeq(r.pos, FShow))>>})
     \cup UNION {IF SameSeq(r[k], flat) THEN {} ELSE {<<"read_by_" \o k, ToString(MapSeq(r[k], FShow)) \o " parameters " \o ToString(MapSeq(r.params, FShow))>>}
                   : k \in {"sigma", "full", "full2", "pairs", "rows", "cols"}}
TFailing(st, ev) ==
  LET d == st.d IN
  (IF Len(Holds(ev)) # NPairs(d) THEN {<<"one_value_per_pair", ToString(Len(Holds(ev)))>>}
   ELSE (IF ValidWrite(d, ev.w)
           THEN (IF ev.res.k = "exc" THEN {<<"accepts_valid_write", ev.res.e>>}
                 ELSE IF MayHold(d, st.c, ev.w, Holds(ev)) THEN {}
                 ELSE {<<"holds_what_was_written", "before " \o ToString(MapSeq(st.c, FShow)) \o " now " \o ToString(MapSeq(Holds(ev), FShow))>>})
           ELSE (IF ev.res.k # "exc" THEN {<<"refuses_invalid_write", "">>} ELSE {})
                \cup (IF SameSeq(Holds(ev), st.c) THEN {} ELSE {<<"refusal_changes_nothing", "before " \o ToString(MapSeq(st.c, FShow)) \o " now " \o ToString(MapSeq(Holds(ev), FShow))>>}))
        \cup ReadFailing(d, ev.reads))
==============================================================================
