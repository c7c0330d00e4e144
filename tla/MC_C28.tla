------------------------------ MODULE MC_C28 ------------------------------
(***************************************************************************)
(* Design model of summaries.  An object of every kind lives through       *)
(* changes, refused changes and prints; a page shows the object as it is   *)
(* at that moment and tells apart any two objects that differ.             *)
(***************************************************************************)
EXTENDS Printed, Integers, TLC, Json
CONSTANTS Depth, Ops
VARIABLES obj, page, hist
vars == <<obj, page, hist>>
Id(x) == x
Eq(a, b) == a = b
V == {0, 1}
With(o, f, v) == [o EXCEPT ![f] = v]
Arch(t) == With(Blank("archimedean", "frank", 2), "theta", <<t>>)
Gauss(r, q) == With(Blank("gaussian", "gaussian", 2), "R", <<<<1, r>>, <<q, 1>>>>)
Stud(n, r) == With(With(Blank("student", "student", 2), "R", <<<<1, r>>, <<r, 1>>>>), "df", <<n>>)
Emp(t, z, s) == With(Blank("empirical", "empirical", 2), "emp", <<[ties |-> t, offset |-> <<z>>, smoothing |-> s]>>)
Margin(t, a, b) == [type |-> t, names |-> <<"loc", "scale">>, values |-> <<a, b>>]
Marg(m1, m2, i) == With(With(Blank("marginal", "marginal", 2), "margins", <<m1, m2>>), "inner", <<i>>)
Mix(w, x, s, a) == With(With(Blank("gmc", "gmc", 1), "mix", <<[m |-> 2, w |-> <<w, 1>>, mu |-> <<<<x>>, <<0>>>>, S |-> <<<<<<s>>>>, <<<<1>>>>>>]>>), "algo", a)
Margins == {Margin(t, a, b) : t \in {"norm", "logistic"}, a \in V, b \in V}
Family(k) ==
  CASE k = "archimedean" -> {Arch(t) : t \in V}
    [] k = "gaussian" -> {Gauss(r, q) : r \in V, q \in V}
    [] k = "student" -> {Stud(n, r) : n \in V, r \in V}
    [] k = "empirical" -> {Emp(t, z, s) : t \in {"average", "max"}, z \in V, s \in {"none", "beta"}}
    [] k = "marginal" -> {Marg(m1, m2, i) : m1 \in Margins, m2 \in Margins, i \in {Arch(0), Arch(1)}}
    [] k = "gmc" -> {Mix(w, x, s, a) : w \in V, x \in V, s \in V, a \in {"", "pem"}} \cup {Blank("gmc", "gmc", 1)}
Kinds == {"archimedean", "gaussian", "student", "empirical", "marginal", "gmc"}
Init == \E k \in Kinds : obj \in (IF k = "marginal" THEN {CHOOSE o \in Family(k) : TRUE} ELSE Family(k)) /\ page = <<>> /\ hist = <<>>
Log(op) == hist' = Append(hist, op)
Change(op) == /\ \E o \in (IF obj.kind = "marginal" THEN {x \in Family("marginal") : x.margins[2] = obj.margins[2] \/ x.margins[2] = x.margins[1]} ELSE Family(obj.kind)) : obj' = o
              /\ page' = <<>> /\ Log(op)
Refused == obj' = obj /\ page' = page /\ Log("refused")
ShowPage(f) == obj' = obj /\ page' = Page(obj, f, Id) /\ Log(f)
Next == Len(hist) < Depth /\ \E op \in Ops : CASE op \in {"assign", "fit"} -> Change(op) [] op = "refused" -> Refused [] OTHER -> ShowPage(op)
Spec == Init /\ [][Next]_vars
View == <<obj, page, Len(hist), IF hist = <<>> THEN "" ELSE hist[Len(hist)]>>
Printing == hist # <<>> /\ hist[Len(hist)] \in {"text", "html"}
ShowsTheObject == Printing => FirstMissing(Page(obj, hist[Len(hist)], Id), page, Eq) = 0
\* any two objects of one kind have different pages (in text, the algorithm is not shown)
Plainly(o, f) == IF f = "text" THEN With(o, "algo", "") ELSE IF o.mix = <<>> THEN With(o, "algo", "") ELSE o
TellsApart == hist = <<>> => \A f \in {"text", "html"} : \A p \in Family(obj.kind) : FirstMissing(Page(p, f, Id), Page(obj, f, Id), Eq) = 0 => (Plainly(p, f) = Plainly(obj, f) \/ (f = "html" /\ obj.kind = "gmc" /\ p.algo = "" /\ With(obj, "algo", "") = p) \/ (obj.kind = "gmc" /\ p.mix = <<>>))
PrintingChangesNothing == [][hist'[Len(hist')] \in {"text", "html", "refused"} => obj' = obj]_vars
=============================================================================
