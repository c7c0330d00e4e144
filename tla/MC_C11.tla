------------------------------- MODULE MC_C11 -------------------------------
(***************************************************************************)
(* Drawing from a copula.  The random stream is a pair <<key, pos>>: a     *)
(* seeded draw restarts the stream at its seed, an unseeded draw goes on.  *)
(* A sample is the piece of stream it was made from together with the      *)
(* parameters and size; it is labelled when the copula knows names.        *)
(* Seeded draws may use the shared stream or one of their own: Own says    *)
(* which, and the promises below hold either way.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Seeds, Sizes
VARIABLES own, stream, ver, named, log, hist

vars == <<own, stream, ver, named, log, hist>>
NoSeed == -1
Init == own \in BOOLEAN /\ stream = <<-2, 0>> /\ ver = 0 /\ named = FALSE /\ log = <<>> /\ hist = <<>>
Draw(sd, n) ==
  /\ Len(hist) < Depth
  /\ hist' = Append(hist, [op |-> "draw", seed |-> sd, n |-> n])
  /\ LET from == IF sd = NoSeed THEN stream ELSE <<sd, 0>>
     IN /\ log' = Append(log, [seed |-> sd, n |-> n, ver |-> ver, piece |-> from, named |-> named])
        /\ stream' = IF sd # NoSeed /\ own THEN stream ELSE <<from[1], from[2] + n>>
  /\ UNCHANGED <<own, ver, named>>
Change == /\ Len(hist) < Depth /\ hist' = Append(hist, [op |-> "change", seed |-> 0, n |-> 0])
          /\ ver' = ver + 1 /\ UNCHANGED <<own, stream, named, log>>
Learn == /\ Len(hist) < Depth /\ hist' = Append(hist, [op |-> "learn", seed |-> 0, n |-> 0])
         /\ ver' = ver + 1 /\ named' = TRUE /\ UNCHANGED <<own, stream, log>>
Next == Change \/ Learn \/ \E sd \in Seeds \cup {NoSeed} : \E n \in Sizes : Draw(sd, n)
Spec == Init /\ [][Next]_vars

Same(i, j) == log[i].piece = log[j].piece /\ log[i].ver = log[j].ver /\ log[i].n = log[j].n
\* two draws with the same seed are identical, whatever happened in between
Reproducible == \A i, j \in 1..Len(log) : (log[i].seed = log[j].seed /\ log[i].seed # NoSeed /\ log[i].ver = log[j].ver /\ log[i].n = log[j].n) => Same(i, j)
\* unseeded draws with no seeded one between them are fresh, and so are draws with different seeds
Fresh == \A i, j \in 1..Len(log) : (i < j /\ log[i].seed = NoSeed /\ log[j].seed = NoSeed /\ \A k \in i..j : log[k].seed = NoSeed) => ~Same(i, j)
SeedsDiffer == \A i, j \in 1..Len(log) : (log[i].seed # NoSeed /\ log[j].seed # NoSeed /\ log[i].seed # log[j].seed) => ~Same(i, j)
NamesStay == [][named => named']_vars
Emit == (own /\ Len(hist) = Depth /\ hist[Len(hist)].op = "draw") => PrintT("GEN " \o ToJson([hist |-> hist]))
=============================================================================
