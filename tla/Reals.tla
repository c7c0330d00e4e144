------------------------------- MODULE Reals -------------------------------
(***************************************************************************)
(* Real analysis helpers over Num: constants, loops, quadrature, log gamma.*)
(***************************************************************************)
EXTENDS Num, SequencesExt, FiniteSets

Half == Fl("0.5")
Pi == Fl("3.141592653589793")
NaN == Fl("NaN")
Inf == Fl("Infinity")
NegInf == Fl("-Infinity")

\* Loop(n, init, Step): Step(acc, k) for k = 1..n, evaluated eagerly
Loop(n, init, Step(_, _)) == FoldLeft(Step, init, [k \in 1..n |-> k])
SumOver(n, T(_)) == FSum([k \in 1..n |-> T(k)])
ProdOver(n, T(_)) == FProd([k \in 1..n |-> T(k)])
MapSeq(s, G(_)) == [k \in 1..Len(s) |-> G(s[k])]
SumSeq(s, G(_)) == FSum([k \in 1..Len(s) |-> G(s[k])])
ProdSeq(s, G(_)) == FProd([k \in 1..Len(s) |-> G(s[k])])
Sq(a) == a ** a
MaxSeq(s) == FoldLeft(LAMBDA a, b : FMax(a, b), s[1], s)
MinSeq(s) == FoldLeft(LAMBDA a, b : FMin(a, b), s[1], s)
IMax(a, b) == IF a > b THEN a ELSE b
IMin(a, b) == IF a < b THEN a ELSE b

\* polynomial c[1] + c[2] x + ...
Horner(c, x) == Loop(Len(c), 0, LAMBDA acc, k : (acc ** x) ++ c[Len(c) + 1 - k])

(* Gauss-Legendre rules on [-1, 1] with 8 and 32 nodes *)
GLx8 == <<Fl("-0.9602898564975362"), Fl("-0.7966664774136267"), Fl("-0.525532409916329"), Fl("-0.18343464249564978"), Fl("0.18343464249564978"), Fl("0.525532409916329"), Fl("0.7966664774136267"), Fl("0.9602898564975362")>>
GLw8 == <<Fl("0.10122853629037669"), Fl("0.22238103445337434"), Fl("0.31370664587788705"), Fl("0.36268378337836177"), Fl("0.36268378337836177"), Fl("0.31370664587788705"), Fl("0.22238103445337434"), Fl("0.10122853629037669")>>
GLx32 == <<Fl("-0.9972638618494816"), Fl("-0.9856115115452684"), Fl("-0.9647622555875064"), Fl("-0.9349060759377397"), Fl("-0.8963211557660522"), Fl("-0.84936761373257"), Fl("-0.7944837959679424"), Fl("-0.7321821187402897"), Fl("-0.6630442669302152"), Fl("-0.5877157572407623"), Fl("-0.5068999089322294"), Fl("-0.42135127613063533"), Fl("-0.33186860228212767"), Fl("-0.23928736225213706"), Fl("-0.1444719615827965"), Fl("-0.04830766568773831"), Fl("0.04830766568773831"), Fl("0.1444719615827965"), Fl("0.23928736225213706"), Fl("0.33186860228212767"), Fl("0.42135127613063533"), Fl("0.5068999089322294"), Fl("0.5877157572407623"), Fl("0.6630442669302152"), Fl("0.7321821187402897"), Fl("0.7944837959679424"), Fl("0.84936761373257"), Fl("0.8963211557660522"), Fl("0.9349060759377397"), Fl("0.9647622555875064"), Fl("0.9856115115452684"), Fl("0.9972638618494816")>>
GLw32 == <<Fl("0.007018610009469298"), Fl("0.016274394730905965"), Fl("0.025392065309262427"), Fl("0.034273862913021626"), Fl("0.042835898022226426"), Fl("0.050998059262376244"), Fl("0.058684093478535704"), Fl("0.06582222277636175"), Fl("0.07234579410884845"), Fl("0.07819389578707031"), Fl("0.08331192422694685"), Fl("0.08765209300440391"), Fl("0.09117387869576386"), Fl("0.09384439908080457"), Fl("0.09563872007927483"), Fl("0.09654008851472781"), Fl("0.09654008851472781"), Fl("0.09563872007927483"), Fl("0.09384439908080457"), Fl("0.09117387869576386"), Fl("0.08765209300440391"), Fl("0.08331192422694685"), Fl("0.07819389578707031"), Fl("0.07234579410884845"), Fl("0.06582222277636175"), Fl("0.058684093478535704"), Fl("0.050998059262376244"), Fl("0.042835898022226426"), Fl("0.034273862913021626"), Fl("0.025392065309262427"), Fl("0.016274394730905965"), Fl("0.007018610009469298")>>

QuadRule(G(_), a, b, xs, ws) ==
  LET h == (b -- a) ** Half
      m == (a ++ b) ** Half
  IN h ** FDot(ws, [i \in 1..Len(xs) |-> G(m ++ (h ** xs[i]))])
Quad8(G(_), a, b) == QuadRule(G, a, b, GLx8, GLw8)
Quad(G(_), a, b) == QuadRule(G, a, b, GLx32, GLw32)
\* composite rule with n panels
QuadN(G(_), a, b, n) ==
  LET w == (b -- a) // n
  IN FSum([k \in 1..n |-> Quad(G, a ++ (w ** (k - 1)), a ++ (w ** k))])

(* log gamma for positive arguments (Lanczos, g = 7) *)
LanczosC == <<Fl("0.99999999999980993"), Fl("676.5203681218851"), Fl("-1259.1392167224028"), Fl("771.32342877765313"),
  Fl("-176.61502916214059"), Fl("12.507343278686905"), Fl("-0.13857109526572012"), Fl("9.9843695780195716e-6"), Fl("1.5056327351493116e-7")>>
LnGamma(z) ==
  LET x == z -- 1
      t == x ++ Fl("7.5")
      s == FSum([k \in 1..9 |-> IF k = 1 THEN LanczosC[1] ELSE LanczosC[k] // (x ++ (k - 1))])
  IN (Fl("0.9189385332046727") ++ ((x ++ Half) ** FLn(t))) -- t ++ FLn(s)
=============================================================================
