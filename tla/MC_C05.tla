------------------------------- MODULE MC_C05 -------------------------------
(***************************************************************************)
(* Design model of the generators: a level u climbs (0, 1] for every       *)
(* Archimedean configuration.  Each step must respect monotonicity, the    *)
(* inverse relation and the derivative relations; for Gumbel the Pickands  *)
(* function is followed along the same levels.                             *)
(***************************************************************************)
EXTENDS CopulaTable, TLC, Json
CONSTANTS Fine
VARIABLES conf, k

Levels == IF Fine THEN <<"0.0001", "0.001", "0.004", "0.0099", "0.0101", "0.03", "0.07", "0.1", "0.17", "0.25", "0.3", "0.41", "0.5", "0.58", "0.66", "0.75", "0.83", "0.9", "0.96", "0.985", "0.9955", "0.999", "0.9999">>
          ELSE <<"0.0001", "0.004", "0.03", "0.1", "0.3", "0.5", "0.7", "0.9", "0.985", "0.9999">>
Thetas(f) == CASE f = "clayton" -> <<"-0.95", "-0.5", "-0.05", "0", "0.02", "0.6", "3", "12", "28">>
               [] f = "frank" -> <<"-45", "-30", "-7", "-0.4", "-0.01", "0", "0.01", "0.3", "2", "9", "20", "33">>
               [] f = "gumbel" -> <<"1", "1.05", "1.6", "2", "3.3", "9", "22">>
Confs == MapSeq(Thetas("clayton"), LAMBDA t : <<"clayton", t>>) \o MapSeq(Thetas("frank"), LAMBDA t : <<"frank", t>>)
           \o MapSeq(Thetas("gumbel"), LAMBDA t : <<"gumbel", t>>)
c == [fam |-> Confs[conf][1], d |-> 2, par |-> <<Fl(Confs[conf][2])>>]
L(j) == Fl(Levels[j])

Init == conf \in 1..Len(Confs) /\ k = 1
Climb == k < Len(Levels) /\ k' = k + 1 /\ conf' = conf
Spec == Init /\ [][Climb]_<<conf, k>>

u == L(k)
Decreasing == (k > 1 /\ (c.fam # "frank" \/ (Th(c) ** u) \prec 30)) => IPsi(c, u) \prec IPsi(c, L(k - 1))
Negative == (DIPsi1(c, u) \preceq 0) /\ (0 \preceq DIPsi2(c, u))
Cond == IF c.fam = "frank" /\ 0 \prec Th(c) THEN (Fl("2e-15") ** FExp(Th(c) ** u)) // Th(c) ELSE 0
UndoEachOther == FClose(Psi(c, IPsi(c, u)), u, Fl("1e-10"), Fl("1e-11") ++ Cond)
\* the derivatives integrate back (on a small interval below u)
Lo == u -- (Fl("0.02") ** FMin(u, 1 -- u))
FirstDerivative ==
  FClose(Quad8(LAMBDA z : DIPsi1(c, z), Lo, u), IPsi(c, u) -- IPsi(c, Lo), Fl("1e-6"), Fl("1e-13") ** (1 ++ FAbs(IPsi(c, Lo))))
SecondDerivative ==
  FClose(Quad8(LAMBDA z : DIPsi2(c, z), Lo, u), DIPsi1(c, u) -- DIPsi1(c, Lo), Fl("1e-6"), Fl("1e-13") ** (1 ++ FAbs(DIPsi1(c, Lo))))
IsGumbel == c.fam = "gumbel"
PickandsBounds == IsGumbel => LET a == PickA(Th(c), u) IN (FMax(u, 1 -- u) \preceq (a ++ Fl("1e-14"))) /\ (a \preceq (1 ++ Fl("1e-14")))
PickandsConvex == IsGumbel => Fl("-1e-12") \preceq PickA2(Th(c), u)
PickandsDerivatives ==
  IsGumbel => /\ FClose(Quad8(LAMBDA z : PickA1(Th(c), z), Lo, u), PickA(Th(c), u) -- PickA(Th(c), Lo), Fl("1e-6"), Fl("1e-14"))
              /\ FClose(Quad8(LAMBDA z : PickA2(Th(c), z), Lo, u), PickA1(Th(c), u) -- PickA1(Th(c), Lo), Fl("1e-6"), Fl("1e-13"))
PickandsReproducesCdf ==
  IsGumbel => \A j \in 1..Len(Levels) :
     LET v == L(j) lu == FLn(u) lv == FLn(v)
     IN FClose(FExp((lu ++ lv) ** PickA(Th(c), lv // (lu ++ lv))), Cdf(c, <<u, v>>), Fl("1e-10"), Fl("1e-12"))
Emit == PrintT("GEN " \o ToJson([fam |-> c.fam, theta |-> Confs[conf][2], u |-> Levels[k]]))
=============================================================================
