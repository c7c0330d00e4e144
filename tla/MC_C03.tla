------------------------------- MODULE MC_C03 -------------------------------
(***************************************************************************)
(* Design model of the densities: a point climbs a grid of interior points *)
(* for every configuration of the table (Student included).  At every      *)
(* point the density formula, integrated over a small box around the       *)
(* point, must equal the volume which the distribution function gives to   *)
(* that box; Student densities must have the right margins.  Every visited *)
(* point is emitted for replay.                                            *)
(***************************************************************************)
EXTENDS CopulaTable, TLC, Json
CONSTANTS Fine
VARIABLES conf, pos

TableD == Table
  \o <<Conf("student", 2, <<"2", "0.5">>), Conf("student", 2, <<"4", "-0.6">>), Conf("student", 2, <<"30", "0.9">>), Conf("student", 2, <<"7.5", "0">>),
       Conf("student", 3, <<"3", "0.5", "-0.2", "0.3">>), Conf("student", 3, <<"11", "0.8", "0.6", "0.4">>),
       Conf("gaussian", 4, <<"0.5", "0.2", "-0.1", "0.4", "0.3", "0.1">>), Conf("student", 4, <<"5", "0.5", "0.2", "-0.1", "0.4", "0.3", "0.1">>)>>
CopD(k) == [fam |-> TableD[k].fam, d |-> TableD[k].d, par |-> MapSeq(TableD[k].par, Fl)]

Grid(d, fam) ==
  CASE d = 2 -> IF Fine THEN <<"0.001", "0.02", "0.1", "0.3", "0.5", "0.62", "0.8", "0.95", "0.999">>
                ELSE <<"0.001", "0.05", "0.3", "0.62", "0.95", "0.999">>
    [] d = 3 -> IF Fine THEN <<"0.01", "0.1", "0.45", "0.8", "0.99">> ELSE <<"0.01", "0.45", "0.8">>
    [] d = 4 -> IF Fine THEN <<"0.03", "0.2", "0.7">> ELSE <<"0.2", "0.7">>
    [] OTHER -> <<"0.4", "0.8">>
Levels == Grid(TableD[conf].d, TableD[conf].fam)
c == CopD(conf)
u == [i \in 1..Len(pos) |-> Fl(Levels[pos[i]])]
Top == Len(Levels)

Init == conf \in 1..Len(TableD) /\ pos = [i \in 1..TableD[conf].d |-> 1]
Raise == \E i \in 1..Len(pos) : pos[i] < Top /\ pos' = [pos EXCEPT ![i] = @ + 1] /\ conf' = conf
Spec == Init /\ [][Raise]_<<conf, pos>>

\* half sides of the box: a fraction of the distance to the nearest face
Steep == IF c.fam \in Archimedean /\ 50 \prec FAbs(Th(c)) THEN Fl("0.1") ELSE Fl("1")   \* strong dependence: a narrow ridge
HalfSide(x) == FMin(x, 1 -- x) ** (Steep ** (IF c.d = 2 THEN Fl("0.02") ELSE Fl("0.1")))
BoxLo == [i \in 1..c.d |-> u[i] -- HalfSide(u[i])]
BoxHi == [i \in 1..c.d |-> u[i] ++ HalfSide(u[i])]
RECURSIVE Mass(_, _, _)
\* integral of the density over the box in the coordinates from i on
Mass(x, i, dummy) ==
  IF i > c.d THEN Pdf(c, x)
  ELSE Quad8(LAMBDA z : Mass([x EXCEPT ![i] = z], i + 1, dummy), BoxLo[i], BoxHi[i])
\* points whose box the singular parts of the law do not cross and whose volume is not lost to rounding
Smooth == IF c.fam = "clayton" /\ Th(c) \prec 0 THEN ClaytonCdf(Th(c), BoxLo) # Fl("0") \/ FEq(ClaytonCdf(Th(c), BoxHi), 0) ELSE TRUE
HasBox == c.fam # "student" /\ ~(c.fam = "gaussian" /\ c.d > 2) /\ (c.d <= 3)
DensityIsDerivative ==
  (HasBox /\ Smooth) => FClose(Mass(u, 1, 0), BoxVolume(c, BoxLo, BoxHi), Fl("1e-5"), Fl("1e-14"))
\* integrating the last coordinate out of the bivariate elliptical density leaves the margin
StudentMargin ==
  (c.fam = "student" /\ c.d = 2 /\ pos[2] = 1) =>
     LET v == Th(c) x == TQuantile(u[1], v)
         \* y = r x + tan(a) is a smooth substitution of the real line
         G(a) == FExp(MvtLogPdf(<<x, (c.par[2] ** x) ++ (FSin(a) // FCos(a))>>, CorrOf(c), v)) // Sq(FCos(a))
     IN FClose(QuadN(G, Fl("-1.5707963267948966"), Fl("1.5707963267948966"), 8), TPdf(x, v), Fl("1e-6"), 0)
NonNegative == 0 \preceq Pdf(c, u)
Exchangeable == c.fam \notin {"gaussian", "student"} =>
  \A i \in 1..(c.d - 1) : FClose(LogPdf(c, [u EXCEPT ![i] = u[i + 1], ![i + 1] = u[i]]), LogPdf(c, u), Fl("1e-9"), Fl("1e-7"))
Emit == PrintT("GEN " \o ToJson([fam |-> c.fam, d |-> c.d, par |-> TableD[conf].par, u |-> [i \in 1..c.d |-> Levels[pos[i]]]]))
=============================================================================
