------------------------------ MODULE Trace_C28 ------------------------------
(* Recorded pages.  State: the object o as the caller made it (a record of   *)
(* Printed); "change" carries the new description, "page" the words and      *)
(* numbers read off a printed page, "set" a mixture parameter set written    *)
(* out and read back.                                                        *)
EXTENDS Replay, Reals, Printed

TInit(s) == [o |-> s.init.o]
TNext(st, ev) == IF ev.op = "change" THEN [st EXCEPT !.o = ev.o] ELSE st

N(k) == FInt(k)
\* tables are written with six decimals, a mixture as text with four, everything else in full
Full(o) == o.kind \in {"archimedean", "empirical", "indep"} \/ (o.kind = "marginal" /\ o.inner[1].kind \in {"archimedean", "indep"})
Near(o, form, a, b) ==
  FEq(a, b) \/ (IF o.kind = "gmc" /\ form = "text" THEN FClose(a, b, 0, Fl("5.01e-5")) ELSE IF Full(o) THEN FClose(a, b, Fl("1e-12"), 0) ELSE FClose(a, b, Fl("1e-6"), Fl("5.1e-7")))
ShowNums(v) == ToString([i \in 1..Len(v) |-> FShow(v[i])])
PageFailing(o, ev) ==
  IF ev.bad # "" THEN {<<"prints", ev.bad>>}
  ELSE LET want == Page(o, ev.form, N)
           k == FirstMissing(want, ev.page, LAMBDA a, b : Near(o, ev.form, a, b))
       IN (IF k = 0 THEN {} ELSE {<<"page_shows_the_object", "missing " \o ToString(want[k].words) \o " " \o ShowNums(want[k].nums)>>})
          \cup (IF o.kind = "gmc" /\ ev.form = "html" /\ o.algo = "" /\ (\E i \in 1..Len(ev.page) : "algorithm" \in ToSet(ev.page[i].words)) THEN {<<"names_no_algorithm_before_a_fit", "">>} ELSE {})
FitPageFailing(o, ev) ==
  IF ev.bad # "" THEN {<<"prints", ev.bad>>}
  ELSE LET want == IF o.kind = "empirical" THEN <<Entry(<<"empirical">>, <<>>), Entry(<<"dimensions">>, <<N(o.dim)>>), Entry(<<"observations">>, <<N(o.emp[1].n)>>)>>
                   ELSE <<Entry(<<"independent">>, <<>>), Entry(<<"dimensions">>, <<N(o.dim)>>)>>
       IN IF FirstMissing(want, ev.page, FEq) = 0 THEN {} ELSE {<<"fit_page_shows_the_object", ToString([i \in 1..Len(ev.page) |-> ev.page[i].words])>>}
Exactly(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FEq(a[i], b[i])
TFailing(st, ev) ==
  CASE ev.op = "page" -> PageFailing(st.o, ev)
    [] ev.op = "fitpage" -> FitPageFailing(st.o, ev)
    [] ev.op = "set" -> IF ev.bad # "" THEN {<<"written_set_reads_back", ev.bad>>}
         ELSE LET x == ev.x y == ev.back IN
           IF Exactly(x.w, y.w) /\ Exactly(x.mu, y.mu) /\ Exactly(x.S, y.S) /\ x.m = y.m /\ x.d = y.d THEN {} ELSE {<<"written_set_reads_back", ShowNums(y.w) \o ShowNums(y.mu) \o ShowNums(y.S)>>}
    [] ev.op \in {"change", "refused"} -> {}
==============================================================================
