------------------------------- MODULE MC_C07 -------------------------------
(***************************************************************************)
(* All sequences of writes over a small alphabet.  The design keeps the    *)
(* full matrix m, as a user sees it, beside the vector c of the machine in *)
(* Corr.tla; both must always agree.  The repair of an invalid matrix is   *)
(* modelled by shrinking towards the identity (any repair is allowed).     *)
(***************************************************************************)
EXTENDS Corr, TLC, Json
CONSTANTS Dims, Depth
VARIABLES d, m, c, hist, exact

W(op, idx, form, s) == [op |-> op, idx |-> idx, form |-> form, s |-> s]
Num(w) == [op |-> w.op, idx |-> w.idx, form |-> w.form, v |-> [i \in 1..Len(w.s) |-> Fl(w.s[i])]]
Mat3(a, b, e) == <<"1", a, b, a, "1", e, b, e, "1">>
Mat4(a, b) == <<"1", a, b, a,  a, "1", b, b,  b, b, "1", a,  a, b, a, "1">>
Alphabet ==
  {W("pos", <<k>>, "scalar", <<v>>) : k \in {0, NPairs(d) - 1}, v \in {"0.5", "-0.9"}}
  \cup {W("pos", <<NPairs(d)>>, "scalar", <<"0.5">>), W("pos", <<0>>, "scalar", <<"1.5">>)}
  \cup {W("pair", p, "scalar", <<v>>) : p \in {<<1, 0>>, <<0, d - 1>>}, v \in {"0.25", "-0.8"}}
  \cup {W("pair", p, "scalar", <<"0.5">>) : p \in {<<0, 0>>, <<d, 0>>, <<0, d>>, <<-1, 0>>, <<0, -1>>}}
  \cup {W("pair", <<0, 1>>, "scalar", <<"-1.01">>), W("pair", <<1, 0>>, "scalar", <<"1">>)}
  \cup {W(o, <<i>>, "scalar", <<v>>) : o \in {"row", "col"}, i \in {0, d - 1}, v \in {"0.4"}}
  \cup {W("row", <<d - 1>>, "vec", SubSeq(<<"0.1", "-0.7", "0.6", "0.3">>, 1, d)), W("col", <<0>>, "vec", SubSeq(<<"1", "0.2", "-0.3", "0.5">>, 1, d)),
        W("row", <<0>>, "vec", SubSeq(<<"0.1", "0.2", "0.3", "0.4">>, 1, d - 1)), W("col", <<0>>, "vec", SubSeq(<<"1", "0.2", "2", "0.5">>, 1, d - 1) \o <<"1.2">>),
        W("row", <<d>>, "scalar", <<"0.1">>), W("col", <<-1>>, "scalar", <<"0.1">>), W("col", <<0>>, "scalar", <<"-1.2">>)}
  \cup (CASE d = 2 -> {W("all", <<>>, "mat", <<"1", "-0.3", "-0.3", "1">>), W("all", <<>>, "mat", <<"1", "0.3", "0.2", "1">>), W("all", <<>>, "mat", Mat3("0.1", "0.2", "0.3")),
                       W("vec", <<>>, "vec", <<"0.75">>), W("vec", <<>>, "vec", <<"0.75", "0.1">>), W("all2", <<>>, "mat", <<"1", "0.6", "0.6", "1">>)}
          [] d = 3 -> {W("all", <<>>, "mat", Mat3("0.1", "-0.2", "0.3")), W("all2", <<>>, "mat", Mat3("0.9", "0.9", "-0.9")), W("all", <<>>, "mat", <<"1", "0.3", "0.2", "0.1", "1", "0.4", "0.2", "0.4", "1">>),
                       W("all", <<>>, "mat", <<"1", "0.3", "0.3", "1">>), W("all2", <<>>, "mat", Mat3("0.1", "1.2", "0.3")),
                       W("vec", <<>>, "vec", <<"0.1", "0.2", "0.3">>), W("vec", <<>>, "vec", <<"0.9", "-0.9", "0.9">>), W("vec", <<>>, "vec", <<"0.1", "0.2">>)}
          [] OTHER -> {W("all", <<>>, "mat", Mat4("0.1", "-0.2")), W("all2", <<>>, "mat", Mat4("0.9", "-0.9")), W("vec", <<>>, "vec", <<"0.1", "0.2", "0.3", "-0.1", "-0.2", "-0.3">>)})

\* the user's view of a write: both entries of each pair named by the index
Both(M, i, j, x) == [M EXCEPT ![i][j] = x, ![j][i] = x]
MRaw(w) ==
  CASE w.op = "pair" -> Both(m, w.idx[1] + 1, w.idx[2] + 1, w.v[1])
    [] w.op = "pos" -> LET p == PairAt(d, w.idx[1]) IN Both(m, p[1], p[2], w.v[1])
    [] w.op \in {"row", "col"} -> LET r == w.idx[1] + 1 IN
         [i \in 1..d |-> [j \in 1..d |-> IF i = j \/ (i # r /\ j # r) THEN m[i][j]
                                         ELSE IF w.form = "scalar" THEN w.v[1] ELSE w.v[IF i = r THEN j ELSE i]]]
    [] w.op \in {"all", "all2"} -> [i \in 1..d |-> [j \in 1..d |-> w.v[(i - 1) * d + j]]]
    [] w.op = "vec" -> CorrFromVec(d, w.v)
Shrink(v, l) == [k \in 1..Len(v) |-> v[k] ** l]
RepairedTo(v) == Shrink(v, CHOOSE l \in {Fl("0.75"), Fl("0.5"), Fl("0.25"), Fl("0.1")} : SemiDef(d, Shrink(v, l)))

Init == /\ d \in Dims /\ c = [k \in 1..NPairs(d) |-> Fl("0")]
        /\ m = CorrFromVec(d, c) /\ hist = <<>> /\ exact = TRUE
Write ==
  /\ Len(hist) < Depth /\ d' = d
  /\ \E w \in Alphabet :
       /\ hist' = Append(hist, w)
       /\ IF ~ValidWrite(d, Num(w)) THEN UNCHANGED <<m, c, exact>>
          ELSE LET raw == Raw(d, c, Num(w)) IN
               IF w.op = "vec" \/ SemiDef(d, raw) THEN c' = raw /\ m' = MRaw(Num(w)) /\ exact' = (w.op # "vec" \/ SemiDef(d, raw))
               ELSE c' = RepairedTo(raw) /\ m' = CorrFromVec(d, RepairedTo(raw)) /\ exact' = TRUE
Spec == Init /\ [][Write]_<<d, m, c, hist, exact>>

ViewsAgree == \A i, j \in 1..d : FEq(m[i][j], CorrFromVec(d, c)[i][j])
Symmetric == \A i, j \in 1..d : FEq(m[i][j], m[j][i]) /\ FEq(m[i][i], 1)
Valid == exact => SemiDef(d, c)
PositionsArePairs == {PairAt(d, k) : k \in 0..(NPairs(d) - 1)} = {p \in (1..d) \X (1..d) : p[1] < p[2]}
Allowed == [][\A w \in Alphabet : (hist' = Append(hist, w) /\ ValidWrite(d, Num(w))) => MayHold(d, c, Num(w), c')]_<<d, m, c, hist, exact>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson([d |-> d, hist |-> hist]))
=============================================================================
