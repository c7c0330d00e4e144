------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Admissible parameters.  A value offered to a copula is a record         *)
(* [form, v]: form "scalar" (one number), "vec" (flat vector), "named"     *)
(* (named tuple of degrees of freedom and correlations), "mat" (a matrix), *)
(* "text"; v is the sequence of its numbers.                               *)
(***************************************************************************)
EXTENDS Num

Pairs(d) == (d * (d - 1)) \div 2
Archimedeans == {"clayton", "frank", "gumbel"}
AdmissibleTheta(fam, d, t) ==
  CASE fam = "clayton" -> IF d = 2 THEN -1 \preceq t ELSE 0 \preceq t
    [] fam = "frank" -> d = 2 \/ 0 \preceq t
    [] fam = "gumbel" -> 1 \preceq t
\* value assigned to a copula that exists
Admissible(fam, d, x) ==
  CASE fam \in Archimedeans -> x.form = "scalar" /\ AdmissibleTheta(fam, d, x.v[1])
    [] fam = "gaussian" -> x.form = "scalar" \/ (x.form = "vec" /\ Len(x.v) = Pairs(d))
    [] fam = "student" -> x.form \in {"vec", "named"} /\ Len(x.v) = Pairs(d) + 1 /\ 0 \prec x.v[1]
\* value given to the constructor (Student: degrees of freedom)
AdmissibleNew(fam, d, x) ==
  d >= 2 /\ CASE fam \in Archimedeans -> x.form = "scalar" /\ AdmissibleTheta(fam, d, x.v[1])
              [] fam = "gaussian" -> TRUE
              [] fam = "student" -> 0 \prec x.v[1]
\* parameters read back after an accepted value
ReadBack(fam, d, x) == IF fam = "gaussian" /\ x.form = "scalar" THEN [i \in 1..Pairs(d) |-> x.v[1]] ELSE x.v
ReadBackNew(fam, d, x) ==
  CASE fam \in Archimedeans -> x.v
    [] fam = "gaussian" -> [i \in 1..Pairs(d) |-> 0]
    [] fam = "student" -> x.v \o [i \in 1..Pairs(d) |-> 0]
=============================================================================
