------------------------------ MODULE MC_C28b ------------------------------
(* Histories of changes, refusals and prints: every page is of the object   *)
(* as the last change left it (seen: the version shown).                    *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Depth
VARIABLES version, seen, hist
vars == <<version, seen, hist>>
Init == version = 0 /\ seen = 0 /\ hist = <<>>
Next == Len(hist) < Depth /\ \E op \in {"assign", "fit", "refused", "text", "html"} :
  /\ hist' = Append(hist, op)
  /\ version' = IF op \in {"assign", "fit"} THEN version + 1 ELSE version
  /\ seen' = IF op \in {"text", "html"} THEN version ELSE seen
Spec == Init /\ [][Next]_vars
UpToDate == (hist # <<>> /\ hist[Len(hist)] \in {"text", "html"}) => seen = version
Emit == (Len(hist) = Depth /\ hist[Depth] \in {"text", "html"} /\ version > 0) => PrintT("GEN " \o ToJson(hist))
=============================================================================
