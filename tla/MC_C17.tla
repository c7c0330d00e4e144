------------------------------- MODULE MC_C17 -------------------------------
(***************************************************************************)
(* Design model of margins: a description of the margins of a bivariate    *)
(* copula is put together from descriptions of one margin, good and bad,   *)
(* either one for all margins or one per margin.  Every description is     *)
(* either refused or gives one margin per dimension; one description for   *)
(* all is the same as repeating it; an alias is the name it stands for.    *)
(* For every margin the quantile function undoes the distribution function *)
(* and the density is its derivative.                                      *)
(***************************************************************************)
EXTENDS Margins, Json, TLC
CONSTANTS MaxLen
VARIABLES desc

E(f, t) == [form |-> f, type |-> t, pars |-> <<>>]
Good == <<E("name", "norm"), E("dict", "expon"), E("object", "uniform"), E("name", "normal"), E("dict", "gaussian"), E("name", "exp"), E("object", "laplace"), E("name", " NORM "),
          E("name", "student"), E("dict", "weibull_min"), E("dict", "EXPON "), E("object", "lognorm"), E("name", "pareto"), E("dict", "cauchy")>>
Bad == <<E("name", "poisson"), E("dict", "nosuch"), E("name", "describe"), E("frozen", "norm"), E("bare", "norm"), E("notype", "norm"), E("number", "norm")>>
Elements == Good \o Bad
Init == desc = [kind |-> "none"]
Choose == desc.kind = "none" /\ (\/ \E i \in 1..Len(Elements) : desc' = [kind |-> "all", one |-> Elements[i]]
                                 \/ desc' = [kind |-> "each", list |-> <<>>])
Extend == desc.kind = "each" /\ Len(desc.list) < MaxLen
          /\ \E i \in 1..Len(Elements) : (Len(desc.list) = 2 => i <= 2) /\ desc' = [desc EXCEPT !.list = Append(@, Elements[i])]
Next == Choose \/ Extend
Spec == Init /\ [][Next]_desc

D == 2
Total == desc.kind = "none" \/ IF ValidMargins(desc, D) THEN Len(MarginsOf(desc, D)) = D /\ \A i \in 1..D : MarginsOf(desc, D)[i].type \in Types ELSE TRUE
RefusesBad == desc.kind = "none" \/ ((\E i \in 1..Len(Bad) : (IF desc.kind = "all" THEN desc.one = Bad[i] ELSE \E k \in 1..Len(desc.list) : desc.list[k] = Bad[i])) => ~ValidMargins(desc, D))
TooFew == desc.kind = "each" => (Len(desc.list) # D => ~ValidMargins(desc, D))
OneForAll == desc.kind = "all" => (ValidElement(desc.one) => MarginsOf(desc, D) = MarginsOf([kind |-> "each", list |-> <<desc.one, desc.one>>], D))
AliasIsName == desc.kind = "none" => \A a \in DOMAIN Aliases : MarginOf(E("name", a)) = MarginOf(E("dict", Aliases[a]))
\* the margin laws themselves
Probe(t) == [type |-> t, par |-> [i \in 1..Len(ParNames(t)) |-> IF i = Len(ParNames(t)) THEN Fl("1.5") ELSE IF i = Len(ParNames(t)) - 1 THEN Fl("-0.5") ELSE Fl("2.5")]]
Laws == desc.kind = "none" => \A t \in Types : \A k \in 1..9 :
  LET m == Probe(t) p == k // 10 x == MQuantile(m, p) h == Fl("1e-5")
  IN /\ FClose(MCdf(m, x), p, 0, Fl("1e-10"))
     /\ InSupport(m, x) /\ (FEq(MCdf(m, -3), 0) <=> ~InSupport(m, -3)) /\ (FEq(MCdf(m, 100), 1) => (InSupport(m, 100) <=> t # "uniform"))
     /\ FClose((MCdf(m, x ++ h) -- MCdf(m, x -- h)) // (2 ** h), FExp(MLogPdf(m, x)), Fl("1e-4"), Fl("1e-6"))
Emit == desc.kind # "none" => PrintT("GEN " \o ToJson(desc))
=============================================================================
