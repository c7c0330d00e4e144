------------------------------- MODULE MC_C06 -------------------------------
(***************************************************************************)
(* Parameter machine: a copula is constructed with an offered value and    *)
(* then offered a sequence of values; admissible values become the         *)
(* parameters, others leave them.  All behaviours up to Depth offers.      *)
(***************************************************************************)
EXTENDS Params, TLC, Json
CONSTANTS Depth
VARIABLES fam, dim, cur, hist

S(t) == [form |-> "scalar", s |-> <<t>>]
V(t) == [form |-> "vec", s |-> t]
N(t) == [form |-> "named", s |-> t]
M(t) == [form |-> "mat", s |-> t]
X == [form |-> "text", s |-> <<>>]
Nums(x) == [form |-> x.form, v |-> [i \in 1..Len(x.s) |-> Fl(x.s[i])]]

\* the offered values of every family: bounds, both sides of each, far values, wrong forms
Offers(f, d) ==
  CASE f = "clayton" -> {S("-7"), S("-1.000001"), S("-1"), S("-0.4"), S("-1e-9"), S("0"), S("1e-9"), S("3.25"), S("1e5"), X}
    [] f = "frank" -> {S("-1e4"), S("-2.5"), S("-1e-9"), S("0"), S("1e-9"), S("7.75"), S("1e4"), X}
    [] f = "gumbel" -> {S("-3"), S("0"), S("0.999999"), S("1"), S("1.000001"), S("2.5"), S("1e4"), X}
    [] f = "gaussian" -> IF d = 2 THEN {S("0.25"), V(<<"-0.5">>), V(<<"0.5", "0.5">>), V(<<>>), M(<<"1", "0.5", "0.5", "1">>)}
                         ELSE {S("0.25"), V(<<"0.1", "0.2", "0.3">>), V(<<"-0.5", "0.25", "0">>), V(<<"0.5">>), V(<<"0.5", "0.5">>), V(<<"0.1", "0.1", "0.1", "0.1">>), V(<<>>),
                               M(<<"1", "0.5", "0.5", "1">>)}
    [] f = "student" -> IF d = 2 THEN {V(<<"3.5", "0.25">>), N(<<"6", "-0.5">>), V(<<"0", "0.5">>), V(<<"-2", "0.5">>), N(<<"0", "0.1">>), N(<<"-1", "0.1">>), V(<<"0.5">>), V(<<"5", "0.5", "0.5">>), N(<<"4", "0.1", "0.2">>), N(<<"4">>)}
                        ELSE {V(<<"3.5", "0.1", "0.2", "0.3">>), N(<<"6", "-0.5", "0.25", "0">>), V(<<"0", "0.1", "0.2", "0.3">>), V(<<"-4", "0.1", "0.2", "0.3">>), N(<<"0", "0.1", "0.2", "0.3">>),
                              V(<<"0.1", "0.2", "0.3">>), V(<<"3", "0.1">>), N(<<"3", "0.1">>), V(<<"3", "0.1", "0.1", "0.1", "0.1">>)}
NewOffers(f) ==
  CASE f \in Archimedeans -> Offers(f, 2) \ {X}
    [] f = "gaussian" -> {S("0")}
    [] f = "student" -> {S("0"), S("-3"), S("0.5"), S("4")}
None == <<>>
Init == /\ fam \in Archimedeans \cup {"gaussian", "student"} /\ dim \in {1, 2, 3}
        /\ cur = None /\ hist = <<>>
Construct ==
  /\ hist = <<>>
  /\ \E x \in NewOffers(fam) :
       /\ hist' = <<x>>
       /\ cur' = IF AdmissibleNew(fam, dim, Nums(x)) THEN ReadBackNew(fam, dim, Nums(x)) ELSE None
Assign ==
  /\ hist # <<>> /\ cur # None /\ Len(hist) <= Depth
  /\ \E x \in Offers(fam, dim) :
       /\ hist' = Append(hist, x)
       /\ cur' = IF Admissible(fam, dim, Nums(x)) THEN ReadBack(fam, dim, Nums(x)) ELSE cur
Next == (Construct \/ Assign) /\ UNCHANGED <<fam, dim>>
Spec == Init /\ [][Next]_<<fam, dim, cur, hist>>

\* whatever is offered, what a copula holds is admissible and has the right length
Held == cur # None =>
  /\ Len(cur) = (IF fam \in Archimedeans THEN 1 ELSE IF fam = "gaussian" THEN Pairs(dim) ELSE Pairs(dim) + 1)
  /\ fam \in Archimedeans => AdmissibleTheta(fam, dim, cur[1])
  /\ fam = "student" => 0 \prec cur[1]
\* a copula that exists never disappears, and only admissible offers change it
RefusalChangesNothing ==
  [][\A x \in Offers(fam, dim) : (cur # None /\ hist' = Append(hist, x) /\ ~Admissible(fam, dim, Nums(x))) => cur' = cur]_<<fam, dim, cur, hist>>
Done == hist # <<>> /\ (cur = None \/ Len(hist) = Depth + 1)
Emit == Done => PrintT("GEN " \o ToJson([fam |-> fam, d |-> dim, hist |-> hist]))
=============================================================================
