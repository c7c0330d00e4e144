------------------------------- MODULE Margins -------------------------------
(***************************************************************************)
(* Univariate margins and how descriptions of margins are interpreted.     *)
(* A margin is a record [type, par] with par = <<shape..., loc, scale>>.   *)
(*                                                                         *)
(* A description of one margin is a record [form, type, pars]:             *)
(*   name    a string          dict    a dictionary naming the type        *)
(*   object  a dictionary holding the distribution itself                  *)
(* (pars: the parameters given in the dictionary, as <<name, value>> pairs)*)
(* and the ones to refuse:                                                 *)
(*   frozen  a dictionary holding a distribution with fixed parameters     *)
(*   bare    the distribution itself    notype  a dictionary without type  *)
(*   number  something else altogether                                     *)
(***************************************************************************)
EXTENDS Copulas

Shapes == [norm |-> <<>>, expon |-> <<>>, uniform |-> <<>>, logistic |-> <<>>, cauchy |-> <<>>, laplace |-> <<>>, gumbel_r |-> <<>>, gumbel_l |-> <<>>,
           rayleigh |-> <<>>, t |-> <<"df">>, weibull_min |-> <<"c">>, lognorm |-> <<"s">>, pareto |-> <<"b">>]
Types == DOMAIN Shapes
Aliases == [normal |-> "norm", gaussian |-> "norm", student |-> "t", exp |-> "expon"]
\* names are read without regard to case and surrounding blanks
Spelled == ("Normal" :> "norm") @@ (" NORM " :> "norm") @@ ("Exp" :> "expon") @@ ("EXPON " :> "expon") @@ ("Uniform" :> "uniform")
Canon(n) == IF n \in Types THEN n ELSE IF n \in DOMAIN Aliases THEN Aliases[n] ELSE IF n \in DOMAIN Spelled THEN Spelled[n] ELSE ""
GoodForms == {"name", "dict", "object"}
BadForms == {"frozen", "bare", "notype", "number"}
ValidElement(e) == e.form \in GoodForms /\ Canon(e.type) # ""
\* parameters in order; a shape not given is one half, the location 0, the scale 1
ParNames(type) == Shapes[type] \o <<"loc", "scale">>
Given(e, n) == LET q == SelectSeq(e.pars, LAMBDA p : p[1] = n) IN IF Len(q) = 0 THEN (CASE n = "loc" -> Fl("0") [] n = "scale" -> Fl("1") [] OTHER -> Fl("0.5")) ELSE q[1][2]
MarginOf(e) == LET t == Canon(e.type) N == ParNames(t) IN [type |-> t, par |-> [i \in 1..Len(N) |-> Given(e, N[i])]]
\* a description of all margins: [kind: "all", one: element] or [kind: "each", list: sequence of elements]
ValidMargins(D, d) == IF D.kind = "all" THEN ValidElement(D.one) ELSE Len(D.list) = d /\ \A i \in 1..d : ValidElement(D.list[i])
MarginsOf(D, d) == [i \in 1..d |-> MarginOf(IF D.kind = "all" THEN D.one ELSE D.list[i])]

(* values *)
Loc(m) == m.par[Len(m.par) - 1]
Scale(m) == m.par[Len(m.par)]
Std(m, x) == (x -- Loc(m)) // Scale(m)
MCdf(m, x) ==
  LET z == Std(m, x) k == m.par[1] IN
  CASE m.type = "norm" -> NCdf(z)
    [] m.type = "expon" -> IF z \preceq 0 THEN Fl("0") ELSE FNeg(FExpm1(FNeg(z)))
    [] m.type = "uniform" -> IF z \preceq 0 THEN Fl("0") ELSE IF 1 \preceq z THEN Fl("1") ELSE z
    [] m.type = "logistic" -> 1 // (1 ++ FExp(FNeg(z)))
    [] m.type = "cauchy" -> Half ++ (FAtan(z) // Pi)
    [] m.type = "laplace" -> IF z \prec 0 THEN Half ** FExp(z) ELSE 1 -- (Half ** FExp(FNeg(z)))
    [] m.type = "gumbel_r" -> FExp(FNeg(FExp(FNeg(z))))
    [] m.type = "gumbel_l" -> FNeg(FExpm1(FNeg(FExp(z))))
    [] m.type = "rayleigh" -> IF z \preceq 0 THEN Fl("0") ELSE FNeg(FExpm1(FNeg(Sq(z) ** Half)))
    [] m.type = "t" -> TCdf(z, k)
    [] m.type = "weibull_min" -> IF z \preceq 0 THEN Fl("0") ELSE FNeg(FExpm1(FNeg(FPow(z, k))))
    [] m.type = "lognorm" -> IF z \preceq 0 THEN Fl("0") ELSE NCdf(FLn(z) // k)
    [] m.type = "pareto" -> IF z \preceq 1 THEN Fl("0") ELSE 1 -- FPow(z, FNeg(k))
\* the support of a margin, on the standard scale
InSupport(m, x) ==
  LET z == Std(m, x) IN
  CASE m.type \in {"expon", "rayleigh", "weibull_min", "lognorm"} -> 0 \preceq z
    [] m.type = "uniform" -> (0 \preceq z) /\ (z \preceq 1)
    [] m.type = "pareto" -> 1 \preceq z
    [] OTHER -> TRUE
MLogPdf(m, x) == IF ~InSupport(m, x) THEN NegInf ELSE
  LET z == Std(m, x) k == m.par[1]
      base == CASE m.type = "norm" -> NLogPdf(z)
                [] m.type = "expon" -> FNeg(z)
                [] m.type = "uniform" -> Fl("0")
                [] m.type = "logistic" -> FNeg(z) -- (2 ** FLn1p(FExp(FNeg(z))))
                [] m.type = "cauchy" -> FNeg(FLn(Pi ** (1 ++ Sq(z))))
                [] m.type = "laplace" -> FNeg(FAbs(z)) -- FLn(Fl("2"))
                [] m.type = "gumbel_r" -> FNeg(z) -- FExp(FNeg(z))
                [] m.type = "gumbel_l" -> z -- FExp(z)
                [] m.type = "rayleigh" -> FLn(z) -- (Sq(z) ** Half)
                [] m.type = "t" -> TLogPdf(z, k)
                [] m.type = "weibull_min" -> (FLn(k) ++ ((k -- 1) ** FLn(z))) -- FPow(z, k)
                [] m.type = "lognorm" -> NLogPdf(FLn(z) // k) -- FLn(k ** z)
                [] m.type = "pareto" -> FLn(k) -- ((k ++ 1) ** FLn(z))
  IN base -- FLn(Scale(m))
MQuantile(m, p) ==
  LET k == m.par[1]
      z == CASE m.type = "norm" -> NQuantile(p)
             [] m.type = "expon" -> FNeg(FLn1p(FNeg(p)))
             [] m.type = "uniform" -> p
             [] m.type = "logistic" -> FLn(p) -- FLn1p(FNeg(p))
             [] m.type = "cauchy" -> LET q == p -- Half IN FSin(Pi ** q) // FCos(Pi ** q)
             [] m.type = "laplace" -> IF p \prec Half THEN FLn(2 ** p) ELSE FNeg(FLn(2 ** (1 -- p)))
             [] m.type = "gumbel_r" -> FNeg(FLn(FNeg(FLn(p))))
             [] m.type = "gumbel_l" -> FLn(FNeg(FLn1p(FNeg(p))))
             [] m.type = "rayleigh" -> FSqrt((-2) ** FLn1p(FNeg(p)))
             [] m.type = "t" -> TQuantile(p, k)
             [] m.type = "weibull_min" -> FPow(FNeg(FLn1p(FNeg(p))), 1 // k)
             [] m.type = "lognorm" -> FExp(k ** NQuantile(p))
             [] m.type = "pareto" -> FPow(1 -- p, FNeg(1 // k))
  IN Loc(m) ++ (Scale(m) ** z)

(* maximum likelihood estimates with a closed form, as <<loc, scale>> *)
ClosedForm == {"norm", "expon", "uniform", "laplace"}
MeanOf(x) == FSum(x) // Len(x)
MedianOf(x) == LET s == SortSeq(x, LAMBDA a, b : a \prec b) n == Len(x) IN IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE (s[n \div 2] ++ s[(n \div 2) + 1]) ** Half
MLE(type, x) ==
  CASE type = "norm" -> LET m == MeanOf(x) IN <<m, FSqrt(SumSeq(x, LAMBDA v : Sq(v -- m)) // Len(x))>>
    [] type = "expon" -> <<MinSeq(x), MeanOf(x) -- MinSeq(x)>>
    [] type = "uniform" -> <<MinSeq(x), MaxSeq(x) -- MinSeq(x)>>
    [] type = "laplace" -> LET m == MedianOf(x) IN <<m, SumSeq(x, LAMBDA v : FAbs(v -- m)) // Len(x)>>
MargLogLik(m, x) == SumSeq(x, LAMBDA v : MLogPdf(m, v))

(* the composed copula; c is the inner copula *)
Levels(M, x) == [j \in 1..Len(M) |-> MCdf(M[j], x[j])]
JointCdf(c, M, x) == Cdf(c, Levels(M, x))
JointLogPdf(c, M, x) == IF \E j \in 1..Len(M) : ~InSupport(M[j], x[j]) THEN NegInf ELSE LogPdf(c, Levels(M, x)) ++ FSum([j \in 1..Len(M) |-> MLogPdf(M[j], x[j])])
=============================================================================
