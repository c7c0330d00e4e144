------------------------------- MODULE MC_C12 -------------------------------
(***************************************************************************)
(* Ownership of memory.  Cells 1..NCells belong to the caller; the copula  *)
(* keeps its own cell 0.  Giving a cell copies its content; library        *)
(* operations read any cell and write only the cell the copula owns; the   *)
(* caller writes its own cells.  A caller's cell changes only when the     *)
(* caller writes it, and what the caller writes after giving a cell is not *)
(* seen by the copula.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, NCells, GiveKinds, LibKinds
VARIABLES heap, owned, count, hist, actor

vars == <<heap, owned, count, hist, actor>>
Cells == 1..NCells
Init == heap = [c \in 0..NCells |-> c] /\ owned = 0 /\ count = NCells /\ hist = <<>> /\ actor = "init"
Fresh == count + 1
Give(k, c) == heap' = [heap EXCEPT ![owned] = heap[c]] /\ count' = count /\ actor' = "library"
Work(k) == /\ heap' = IF k \in {"element", "refit"} THEN [heap EXCEPT ![owned] = Fresh] ELSE heap
           /\ count' = Fresh /\ actor' = "library"
Write(c) == heap' = [heap EXCEPT ![c] = Fresh] /\ count' = Fresh /\ actor' = "caller"
Record(op, c) == Len(hist) < Depth /\ hist' = Append(hist, [op |-> op, c |-> c]) /\ owned' = owned
DoGive == \E k \in GiveKinds : \E c \in Cells : Record(k, c) /\ Give(k, c)
DoWork == \E k \in LibKinds : Record(k, 0) /\ Work(k)
DoWrite == \E c \in Cells : Record("write", c) /\ Write(c)
Next == DoGive \/ DoWork \/ DoWrite
Spec == Init /\ [][Next]_vars
LibraryLeavesCallerCells == [][actor' = "library" => \A c \in Cells : heap'[c] = heap[c]]_vars
CallerLeavesCopula == [][actor' = "caller" => heap'[0] = heap[0]]_vars
NeverSharedInv == owned \notin Cells
Useful == hist[1].op \in GiveKinds /\ \E i \in 1..Len(hist) : hist[i].op \in LibKinds
Emit == (Len(hist) = Depth /\ Useful /\ hist[Depth].op # "write" /\ \A i \in 1..Depth : hist[i].c <= i) => PrintT("GEN " \o ToJson([hist |-> hist]))
=============================================================================
