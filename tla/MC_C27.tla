------------------------------ MODULE MC_C27 ------------------------------
(***************************************************************************)
(* Several copula objects side by side.  An object is made anew or as a    *)
(* copy of a live one, is changed, or is asked; asking and refused changes *)
(* leave everything as it was.  A change reaches its own object only; one  *)
(* object may adopt the parameters of another.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth, Most, Changes, Asks, Ways
VARIABLES objs, hist, count
vars == <<objs, hist, count>>
Init == objs = <<0>> /\ hist = <<>> /\ count = 0
LogTo(op, x, y, k) == hist' = Append(hist, [op |-> op, x |-> x, y |-> y, k |-> k])
Log(op, x, k) == LogTo(op, x, 0, k)
Make == Len(objs) < Most /\ objs' = Append(objs, 0) /\ Log("new", 0, "") /\ count' = count
Copy == Len(objs) < Most /\ \E x \in 1..Len(objs) : \E k \in Ways : objs' = Append(objs, objs[x]) /\ Log("copy", x, k) /\ count' = count
Change == \E x \in 1..Len(objs) : \E k \in Changes : objs' = [objs EXCEPT ![x] = count + 1] /\ count' = count + 1 /\ Log("change", x, k)
Ask == \E x \in 1..Len(objs) : \E k \in Asks : objs' = objs /\ Log("ask", x, k) /\ count' = count
Adopt == \E x, y \in 1..Len(objs) : x # y /\ objs' = [objs EXCEPT ![x] = objs[y]] /\ LogTo("adopt", x, y, "") /\ count' = count
Next == Len(hist) < Depth /\ (Adopt \/ Make \/ Copy \/ Change \/ Ask)
Spec == Init /\ [][Next]_vars
Acted == hist'[Len(hist')]
OthersStay == [][\A y \in 1..Len(objs) : (Acted.op \notin {"change", "adopt"} \/ Acted.x # y) => objs'[y] = objs[y]]_vars
CopiesAgree == [][Acted.op = "copy" => objs'[Len(objs')] = objs[Acted.x]]_vars
\* no two objects owe their state to the same change, unless one is a copy taken after it or has adopted it
Shared == \A x, y \in 1..Len(objs) : (x # y /\ objs[x] = objs[y] /\ objs[x] # 0) => \E i \in 1..Len(hist) : hist[i].op \in {"copy", "adopt"}
Emit == (Len(hist) = Depth /\ Len(objs) > 1 /\ hist[Depth].op # "new" /\ \E i \in 1..Depth : hist[i].op = "change") => PrintT("GEN " \o ToJson([hist |-> hist]))
=============================================================================
