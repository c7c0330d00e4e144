------------------------------ MODULE MC_C26 ------------------------------
(***************************************************************************)
(* Design model of the data set loaders: every load makes a new table that *)
(* belongs to the caller, who may spoil it in any way; tables loaded       *)
(* before or after are not affected.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Sets, Depth
VARIABLES disk, tables, hist
vars == <<disk, tables, hist>>
Init == disk = [s \in Sets |-> "intact"] /\ tables = <<>> /\ hist = <<>>
Load(s) == tables' = Append(tables, [set |-> s, content |-> disk[s], by |-> "library"]) /\ hist' = Append(hist, [op |-> "load", set |-> s, at |-> 0])
Spoil(t) == tables' = [tables EXCEPT ![t].content = "spoiled", ![t].by = "caller"] /\ hist' = Append(hist, [op |-> "spoil", set |-> tables[t].set, at |-> t])
Next == Len(hist) < Depth /\ disk' = disk /\ ((\E s \in Sets : Load(s)) \/ (\E t \in 1..Len(tables) : tables[t].by = "library" /\ Spoil(t)))
Spec == Init /\ [][Next]_vars
OnlyTheCallerSpoils == \A t \in 1..Len(tables) : tables[t].content = "spoiled" <=> tables[t].by = "caller"
LoadsAreIntact == [][Len(tables') > Len(tables) => tables'[Len(tables')].content = "intact"]_vars
OthersStay == [][\A t, u \in 1..Len(tables) : (t # u /\ tables'[t] # tables[t]) => tables'[u] = tables[u]]_vars
Emit == (Len(hist) = Depth /\ hist[Depth].op = "load") => PrintT("GEN " \o ToJson(hist))
=============================================================================
