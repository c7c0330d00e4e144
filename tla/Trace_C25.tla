------------------------------ MODULE Trace_C25 ------------------------------
(* Recorded merges of dictionaries, and the keyword arguments with which the *)
(* numerical optimiser was called by maximum likelihood fits.                *)
EXTENDS Replay, Dicts

TInit(s) == [base |-> <<>>]
TNext(st, ev) == IF ev.op = "base" THEN [base |-> <<Canon(ev.got)>>] ELSE st

All(s) == [i \in 1..Len(s) |-> Canon(s[i])]
Where(a, b) == {p \in Paths(a) \cup Paths(b) : ~Has(a, p) \/ ~Has(b, p) \/ At(a, p) # At(b, p)}
Show(x, p) == IF Has(x, p) THEN ToString(At(x, p)) ELSE "nothing"
Differs(name, want, got) == IF want = got THEN {} ELSE {<<name, ToString(p) \o " expected " \o Show(want, p) \o " got " \o Show(got, p)>> : p \in Where(want, got)}
MergeFailing(ev) ==
  IF ev.bad # "" THEN {<<"merge_succeeds", ev.bad>>}
  ELSE Differs("merged_at_every_depth", MergeAll(All(ev.given)), Canon(ev.got))
       \cup UNION {Differs("given_dictionaries_stay", Canon(ev.given[i]), Canon(ev.after[i])) : i \in 1..Len(ev.given)}
ReachFailing(st, ev) ==
  IF ev.calls = 0 THEN {<<"fit_calls_the_optimiser", ev.bad>>}
  ELSE Differs("options_reach_the_optimiser", Merge(st.base[1], Canon(ev.given)), Canon(ev.got))
       \cup Differs("given_options_stay", Canon(ev.given), Canon(ev.after))
TFailing(st, ev) ==
  CASE ev.op = "merge" -> MergeFailing(ev)
    [] ev.op = "base" -> IF ev.calls = 0 THEN {<<"fit_calls_the_optimiser", ev.bad>>} ELSE {}
    [] ev.op = "reach" -> ReachFailing(st, ev)
==============================================================================
