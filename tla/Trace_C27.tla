------------------------------ MODULE Trace_C27 ------------------------------
(* Recorded histories over several copula objects.  After every operation    *)
(* all live objects are observed; only the object the operation changes may  *)
(* answer differently from before, and a copy answers like its original.     *)
EXTENDS Replay

TInit(s) == [obs |-> <<s.init.obs>>]
Upto(ev) == [i \in 1..Len(ev.obs) |-> ev.obs[i]]
TNext(st, ev) == IF ev.bad # "" THEN st ELSE [obs |-> Upto(ev)]

\* the parts of an observation: each a name and either numbers or a text
Parts(o) == {o[i].part : i \in 1..Len(o)}
Part(o, p) == o[CHOOSE i \in 1..Len(o) : o[i].part = p]
Alike(a, b) == a.text = b.text /\ a.v = b.v
Differ(a, b) == {p \in Parts(a) \cup Parts(b) : p \notin Parts(a) \/ p \notin Parts(b) \/ ~Alike(Part(a, p), Part(b, p))}
\* the parts decided by the parameters alone
Law == {"params", "sample", "log density", "distribution", "sigma"}
TFailing(st, ev) ==
  IF ev.bad # "" THEN {<<ev.op \o "_succeeds", ev.bad>>}
  ELSE UNION {{<<IF ev.op = "ask" /\ y = ev.x THEN "asking_changes_nothing" ELSE "an_object_answers_from_its_own_state", p \o " of object " \o ToString(y)>> : p \in Differ(st.obs[y], ev.obs[y])} :
                y \in {y \in 1..Len(st.obs) : y # ev.free}}
   \cup (IF ev.op = "copy" THEN {<<"a_copy_answers_like_its_original", p>> : p \in Differ(st.obs[ev.x], ev.obs[Len(ev.obs)])} ELSE {})
   \cup (IF ev.op = "adopt" THEN {<<"adopted_parameters_are_taken_over", p>> : p \in Differ(ev.obs[ev.y], ev.obs[ev.x]) \cap Law} ELSE {})
   \cup (IF Len(ev.twin) > 0 THEN {<<"answers_follow_from_the_parameters_whatever_came_before", p>> : p \in Differ(ev.twin, ev.obs[ev.x]) \cap Law} ELSE {})
   \cup (IF ev.op = "new" THEN {<<"a_new_object_starts_afresh", p>> : p \in Differ(ev.fresh, ev.obs[Len(ev.obs)])} ELSE {})
==============================================================================
