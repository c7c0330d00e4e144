------------------------------ MODULE MC_C23b ------------------------------
(***************************************************************************)
(* An array function evaluated in place by several threads.  Every element *)
(* has two parts (modulus and angle); a thread loads both, computes, then  *)
(* stores the parts one after the other.  Elements are dealt out in        *)
(* contiguous chunks.  Whatever the interleaving, the finished array is    *)
(* the function of the original one.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen, MaxThreads
VARIABLES n, w, r, t, pc, at, local

vars == <<n, w, r, t, pc, at, local>>
Threads == 1..w
Chunk == (n + w - 1) \div w
First(p) == (p - 1) * Chunk + 1
Last(p) == IF p * Chunk > n THEN n ELSE p * Chunk
F(a, b) == <<100 + 10 * a + b, 200 + a + 10 * b>>
R0(i) == i
T0(i) == (i * i) % 7
Init == /\ n \in 0..MaxLen /\ w \in 1..MaxThreads
        /\ r = [i \in 1..n |-> R0(i)] /\ t = [i \in 1..n |-> T0(i)]
        /\ at = [p \in 1..w |-> First(p)] /\ pc = [p \in 1..w |-> "load"] /\ local = [p \in 1..w |-> <<0, 0>>]
Load(p) == /\ pc[p] = "load" /\ at[p] <= Last(p)
           /\ local' = [local EXCEPT ![p] = F(r[at[p]], t[at[p]])] /\ pc' = [pc EXCEPT ![p] = "store r"] /\ UNCHANGED <<n, w, r, t, at>>
StoreR(p) == /\ pc[p] = "store r" /\ r' = [r EXCEPT ![at[p]] = local[p][1]] /\ pc' = [pc EXCEPT ![p] = "store t"] /\ UNCHANGED <<n, w, t, at, local>>
StoreT(p) == /\ pc[p] = "store t" /\ t' = [t EXCEPT ![at[p]] = local[p][2]] /\ pc' = [pc EXCEPT ![p] = "load"] /\ at' = [at EXCEPT ![p] = @ + 1] /\ UNCHANGED <<n, w, r, local>>
Next == \E p \in Threads : Load(p) \/ StoreR(p) \/ StoreT(p)
Spec == Init /\ [][Next]_vars

Done == \A p \in Threads : at[p] > Last(p) /\ pc[p] = "load"
Deals == \A i \in 1..n : \E p \in Threads : First(p) <= i /\ i <= Last(p) /\ \A q \in Threads : (First(q) <= i /\ i <= Last(q)) => q = p
Result == Done => \A i \in 1..n : <<r[i], t[i]>> = F(R0(i), T0(i))
NeverTwice == \A i \in 1..n : r[i] \in {R0(i), F(R0(i), T0(i))[1]} /\ t[i] \in {T0(i), F(R0(i), T0(i))[2]}
Emit == (\A i \in 1..n : r[i] = R0(i)) /\ (\A p \in Threads : pc[p] = "load") => PrintT("GEN " \o ToJson([kind |-> "threads", len |-> n, w |-> w]))
=============================================================================
