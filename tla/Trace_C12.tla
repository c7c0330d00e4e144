------------------------------ MODULE Trace_C12 ------------------------------
(* Recorded calls with the digests of every cell the caller owns, before    *)
(* and after.  State: the caller's heap, a sequence of digests by cell.     *)
(*   own   the caller creates or writes cells: their digests are now known  *)
(*   call  the library is called: every cell keeps its digest               *)
(*   see   parameters the copula shows before and after the caller writes   *)
EXTENDS Replay

TInit(s) == <<>>
TNext(st, ev) == IF ev.op = "own" THEN ev.heap ELSE st
CallFailing(st, ev) ==
     {<<"caller_cell_unchanged", ev.names[i]>> : i \in {i \in 1..Len(st) : ev.heap[i] # st[i]}}
\cup (IF ev.must /\ ev.bad # "" THEN {<<"call_succeeds", ev.bad>>} ELSE {})
TFailing(st, ev) ==
  CASE ev.op = "own" -> {}
    [] ev.op = "call" -> CallFailing(st, ev)
==============================================================================
