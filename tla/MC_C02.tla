------------------------------- MODULE MC_C02 -------------------------------
(***************************************************************************)
(* Design model of the distribution functions: a point climbs a grid on    *)
(* the closed unit cube from the origin, for every configuration of the    *)
(* table.  At every grid point the defining formula must satisfy the       *)
(* axioms of a copula; every visited point is emitted for replay.          *)
(***************************************************************************)
EXTENDS CopulaTable, TLC, Json
CONSTANTS Fine
VARIABLES conf, pos

Grid(d, fam) ==
  IF fam = "gaussian" /\ d = 3 THEN (IF Fine THEN <<"0", "0.04", "0.3", "0.71", "0.98", "1">> ELSE <<"0", "0.2", "0.71", "1">>)
  ELSE CASE d = 2 -> IF Fine THEN <<"0", "0.0001", "0.002", "0.05", "0.17", "0.3", "0.5", "0.62", "0.8", "0.95", "0.9999", "1">>
                     ELSE <<"0", "0.0001", "0.05", "0.3", "0.62", "0.95", "0.9999", "1">>
         [] d = 3 -> IF Fine THEN <<"0", "0.001", "0.1", "0.45", "0.8", "0.99", "1">> ELSE <<"0", "0.1", "0.45", "0.8", "1">>
         [] d = 4 -> IF Fine THEN <<"0", "0.03", "0.2", "0.7", "1">> ELSE <<"0", "0.2", "0.7", "1">>
         [] OTHER -> <<"0", "0.4", "1">>
Levels == Grid(Table[conf].d, Table[conf].fam)
c == Cop(conf)
At(p) == [i \in 1..Len(p) |-> Fl(Levels[p[i]])]
u == At(pos)
Top == Len(Levels)

Init == conf \in 1..Len(Table) /\ pos = [i \in 1..Table[conf].d |-> 1]
Raise == \E i \in 1..Len(pos) : pos[i] < Top /\ pos' = [pos EXCEPT ![i] = @ + 1] /\ conf' = conf
Spec == Init /\ [][Raise]_<<conf, pos>>

Eps == Fl("1e-11")
Grounded == (\E i \in 1..c.d : pos[i] = 1) => FEq(Cdf(c, u), 0)
Margins == (Cardinality({i \in 1..c.d : pos[i] = Top}) = c.d - 1) =>
             \E i \in 1..c.d : (pos[i] # Top) /\ FClose(Cdf(c, u), u[i], 0, Eps)
Frechet == LET v == Cdf(c, u) lo == (FSum(u) ++ 1) -- c.d
           IN /\ v \preceq (MinSeq(u) ++ Eps)
              /\ FMax(lo, 0) \preceq (v ++ (IF c.fam = "gaussian" /\ c.d = 3 THEN Fl("1e-7") ELSE Eps))
Symmetric == c.fam \notin {"gaussian"} =>
             \A i \in 1..(c.d - 1) : FClose(Cdf(c, At([pos EXCEPT ![i] = pos[i + 1], ![i + 1] = pos[i]])), Cdf(c, u), 0, Eps)
BoxesNonNegative ==
  (\A i \in 1..c.d : pos[i] < Top) =>
     (IF c.fam = "gaussian" /\ c.d = 3 THEN Fl("-1e-7") ELSE FNeg(Eps)) \preceq BoxVolume(c, u, At([i \in 1..c.d |-> pos[i] + 1]))
Emit == PrintT("GEN " \o ToJson([fam |-> c.fam, d |-> c.d, par |-> Table[conf].par, u |-> [i \in 1..c.d |-> Levels[pos[i]]]]))
=============================================================================
