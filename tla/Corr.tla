-------------------------------- MODULE Corr --------------------------------
(***************************************************************************)
(* The correlation matrix of an elliptical copula as a state machine.  The *)
(* state is the vector of pairwise correlations in lower-triangle order.   *)
(* A write is a record [op, idx, form, v]: indices are those of the        *)
(* library (from 0), v its numbers, form "scalar", "vec" or "mat".         *)
(*   pos  by position        pair  by pair (i, j)                          *)
(*   row  [i, :]             col   [:, j]                                  *)
(*   all  [:] or [:, :]      vec   the parameter vector                    *)
(***************************************************************************)
EXTENDS Matrix

NPairs(d) == (d * (d - 1)) \div 2
InRange(v) == \A i \in 1..Len(v) : (-1 \preceq v[i]) /\ (v[i] \preceq 1)
Ix(i, d) == i >= 0 /\ i < d
SymMat(d, v) == \A i, j \in 1..d : FEq(v[(i - 1) * d + j], v[(j - 1) * d + i])

ValidWrite(d, w) ==
  CASE w.op = "pos"  -> w.form = "scalar" /\ InRange(w.v) /\ w.idx[1] < NPairs(d) /\ w.idx[1] >= 0
    [] w.op = "pair" -> w.form = "scalar" /\ InRange(w.v) /\ Ix(w.idx[1], d) /\ Ix(w.idx[2], d) /\ w.idx[1] # w.idx[2]
    [] w.op \in {"row", "col"} -> Ix(w.idx[1], d) /\ InRange(w.v) /\ (w.form = "scalar" \/ (w.form = "vec" /\ Len(w.v) = d))
    [] w.op \in {"all", "all2"} -> w.form = "mat" /\ Len(w.v) = d * d /\ InRange(w.v) /\ SymMat(d, w.v)
    [] w.op = "vec"  -> w.form = "vec" /\ Len(w.v) = NPairs(d)

\* the pair at a position (0-based), lower triangle in column order
PairAt(d, k) == CHOOSE p \in (1..d) \X (1..d) : p[1] < p[2] /\ PairIndex(d, p[1], p[2]) = k + 1
\* pairwise values after a valid write, before any repair
Raw(d, c, w) ==
  CASE w.op = "pos"  -> [c EXCEPT ![w.idx[1] + 1] = w.v[1]]
    [] w.op = "pair" -> [c EXCEPT ![PairIndex(d, w.idx[1] + 1, w.idx[2] + 1)] = w.v[1]]
    [] w.op \in {"row", "col"} ->
         LET r == w.idx[1] + 1
         IN [k \in 1..NPairs(d) |->
               LET p == PairAt(d, k - 1)
               IN IF p[1] # r /\ p[2] # r THEN c[k]
                  ELSE IF w.form = "scalar" THEN w.v[1] ELSE w.v[IF p[1] = r THEN p[2] ELSE p[1]]]
    [] w.op \in {"all", "all2"} -> [k \in 1..NPairs(d) |-> LET p == PairAt(d, k - 1) IN w.v[(p[2] - 1) * d + p[1]]]
    [] w.op = "vec"  -> w.v

Shifted(d, c, e) == LET R == CorrFromVec(d, c) IN [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN R[i][j] ++ e ELSE R[i][j]]]
ClearlyPosDef(d, c) == IsPosDef(Shifted(d, c, Fl("-1e-9")))
SemiDef(d, c) == IsPosDef(Shifted(d, c, Fl("1e-9")))
\* what the copula may hold after a valid write
Repaired(d, raw, new) ==
  IF ClearlyPosDef(d, raw) THEN \A k \in 1..NPairs(d) : FEq(new[k], raw[k])
  ELSE IF SemiDef(d, raw) THEN \A k \in 1..NPairs(d) : FClose(new[k], raw[k], 0, Fl("1e-6"))
  ELSE SemiDef(d, new) /\ \A k \in 1..NPairs(d) : FAbs(new[k]) \preceq Fl("1.000001")
MayHold(d, c, w, new) ==
  LET raw == Raw(d, c, w) IN
  IF w.op = "vec" THEN \A k \in 1..NPairs(d) : FEq(new[k], raw[k]) ELSE Repaired(d, raw, new)
=============================================================================
