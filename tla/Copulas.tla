------------------------------ MODULE Copulas ------------------------------
(***************************************************************************)
(* Defining formulas of the copula families.  A copula value is a record   *)
(* [fam, d, par]; par is the sequence of its parameters: <<theta>> for the *)
(* Archimedean families, the correlations in lower-triangle order for      *)
(* "gaussian", <<df, correlations...>> for "student", <<>> for "indep".    *)
(***************************************************************************)
EXTENDS Normal, Matrix

Archimedean == {"clayton", "frank", "gumbel"}
Th(c) == c.par[1]
CorrOf(c) == CorrFromVec(c.d, IF c.fam = "student" THEN SubSeq(c.par, 2, Len(c.par)) ELSE c.par)

(* ---- generators: Psi is decreasing from 1 to 0, IPsi its inverse ---- *)
Psi(c, s) ==
  LET t == Th(c) IN
  IF FEq(t, 0) THEN FExp(FNeg(s))
  ELSE CASE c.fam = "clayton" -> LET a == FSgn(t) ** s IN IF a \preceq -1 THEN FPow(0, (-1) // t) ELSE FExp(FNeg(FLn1p(a) // t))
         [] c.fam = "frank"   -> IF 1 \prec t /\ s \prec 1      \* 1 - z without cancellation
                                   THEN FNeg(FLn(FExp(FNeg(s ++ t)) -- FExpm1(FNeg(s))) // t)
                                   ELSE FNeg(FLn1p(FExp(FNeg(s)) ** FExpm1(FNeg(t))) // t)
         [] c.fam = "gumbel"  -> FExp(FNeg(FPow(s, 1 // t)))
IPsi(c, u) ==
  LET t == Th(c) IN
  IF FEq(t, 0) THEN FNeg(FLn(u))
  ELSE CASE c.fam = "clayton" -> FSgn(t) ** FExpm1(FNeg(t) ** FLn(u))
         [] c.fam = "frank"   -> FNeg(FLn(FExpm1(FNeg(t ** u)) // FExpm1(FNeg(t))))
         [] c.fam = "gumbel"  -> FPow(FNeg(FLn(u)), t)
\* first and second derivative of IPsi
DIPsi1(c, u) ==
  LET t == Th(c) IN
  IF FEq(t, 0) THEN (-1) // u
  ELSE CASE c.fam = "clayton" -> FNeg(FAbs(t) ** FPow(u, (-1) -- t))
         [] c.fam = "frank"   -> FNeg(t // FExpm1(t ** u))
         [] c.fam = "gumbel"  -> FNeg((t ** FPow(FNeg(FLn(u)), t -- 1)) // u)
DIPsi2(c, u) ==
  LET t == Th(c) IN
  IF FEq(t, 0) THEN 1 // Sq(u)
  ELSE CASE c.fam = "clayton" -> (FAbs(t) ** (1 ++ t)) ** FPow(u, (-2) -- t)
         [] c.fam = "frank"   -> (Sq(t) ** FExp(t ** u)) // Sq(FExpm1(t ** u))
         [] c.fam = "gumbel"  -> LET l == FNeg(FLn(u)) IN
              (t ** FPow(l, t -- 2)) ** (((t -- 1) ++ l) // Sq(u))

(* ---- Pickands dependence function of the Gumbel family and its derivatives ---- *)
PickA(t, w) == FPow(FPow(w, t) ++ FPow(1 -- w, t), 1 // t)
PickA1(t, w) == FPow(FPow(w, t) ++ FPow(1 -- w, t), (1 // t) -- 1) ** (FPow(w, t -- 1) -- FPow(1 -- w, t -- 1))
PickA2(t, w) == ((t -- 1) ** FPow(w ** (1 -- w), t -- 2)) ** FPow(FPow(w, t) ++ FPow(1 -- w, t), (1 // t) -- 2)

(* ---- distribution functions ---- *)
\* logarithm of a sum of exponentials
LnSumExp(a) == LET m == MaxSeq(a) IN IF FIsFinite(m) THEN m ++ FLn(SumSeq(a, LAMBDA x : FExp(x -- m))) ELSE m
\* ln |e^a - 1|
LnAbsExpm1(a) == IF 30 \prec a THEN a ++ FLn1p(FNeg(FExp(FNeg(a)))) ELSE FLn(FAbs(FExpm1(a)))
\* Clayton: ln(1 + s), s = sum_i (u_i^-t - 1); -infinity where the sum does not exceed -1
ClaytonLn1pS(t, u) ==
  LET a == MapSeq(u, LAMBDA x : FNeg(t) ** FLn(x))
      m == MaxSeq(a)
      s == SumSeq(a, FExpm1)
  IN IF 300 \prec m THEN m ++ FLn(SumSeq(a, LAMBDA x : FExp(x -- m)) -- ((Len(u) - 1) ** FExp(FNeg(m))))
     ELSE IF s \preceq -1 THEN NegInf ELSE FLn1p(s)
ClaytonCdf(t, u) == LET l == ClaytonLn1pS(t, u) IN IF FEq(l, NegInf) THEN Fl("0") ELSE FExp(FNeg(l // t))
\* exp(-t C(u, v)) and -t C(u, v) for two coordinates, free of cancellation for t > 0
FrankOmz(t, u, v) == ((FExp(FNeg(t ** u)) ** FNeg(FExpm1(FNeg(t ** v)))) -- (FExp(FNeg(t ** v)) ** FExpm1(FNeg(t ** (1 -- v)))))
                        // FNeg(FExpm1(FNeg(t)))
FrankCdf2(t, u, v) ==
  LET z == (FExpm1(FNeg(t ** u)) ** FExpm1(FNeg(t ** v))) // FExpm1(FNeg(t))
  IN FNeg((IF FAbs(z) \prec Half \/ t \prec 0 THEN FLn1p(z) ELSE FLn(FrankOmz(t, u, v))) // t)
\* Archimedean copulas are associative
FrankCdf(t, u) == FoldLeft(LAMBDA c, x : FrankCdf2(t, c, x), u[1], Tail(u))
\* logarithm of the sum of the inverse generators
GumbelLnS(t, u) == LnSumExp(MapSeq(u, LAMBDA x : t ** FLn(FNeg(FLn(x)))))
GumbelCdf(t, u) == FExp(FNeg(FExp(GumbelLnS(t, u) // t)))

\* bivariate normal: Plackett's identity integrated over the correlation
BvnPanels(r) == IF Fl("0.9") \prec FAbs(r) THEN 4 ELSE 1
BvnCdf(x, y, r) ==
  IF ~FIsFinite(x) \/ ~FIsFinite(y) THEN
    (IF FEq(x, NegInf) \/ FEq(y, NegInf) THEN Fl("0") ELSE IF FEq(x, Inf) THEN NCdf(y) ELSE NCdf(x))
  ELSE
    LET q == Sq(x) ++ Sq(y)
        p == 2 ** (x ** y)
        G(t) == LET s == FSin(t) IN FExp(FNeg((q -- (p ** s)) // (2 ** (1 -- Sq(s)))))
    IN (NCdf(x) ** NCdf(y)) ++ (QuadN(G, Fl("0"), FAsin(r), BvnPanels(r)) // (2 ** Pi))
\* trivariate: condition on the first coordinate
TvnCdf(x, R) ==
  LET r12 == R[1][2] r13 == R[1][3] r23 == R[2][3]
      s12 == FSqrt(1 -- Sq(r12)) s13 == FSqrt(1 -- Sq(r13))
      rc == (r23 -- (r12 ** r13)) // (s12 ** s13)
      lo == FMin(Fl("-7"), x[1] -- 1)
      G(z) == NPdf(z) ** BvnCdf((x[2] -- (r12 ** z)) // s12, (x[3] -- (r13 ** z)) // s13, rc)
  IN Quad(G, lo, x[1])

\* coordinates equal to 1 drop out
Keep(u) == SelectSeq([i \in 1..Len(u) |-> i], LAMBDA i : u[i] \prec 1)
GaussCdf(R, u) ==
  LET k == Keep(u) n == Len(k) IN
  CASE n = 0 -> Fl("1")
    [] n = 1 -> u[k[1]]
    [] n = 2 -> BvnCdf(NQuantile(u[k[1]]), NQuantile(u[k[2]]), R[k[1]][k[2]])
    [] n = 3 -> TvnCdf([i \in 1..3 |-> NQuantile(u[k[i]])], [i \in 1..3 |-> [j \in 1..3 |-> R[k[i]][k[j]]]])

HasCdf(c) == c.fam # "student"
Cdf(c, u) ==
  IF \E i \in 1..Len(u) : FEq(u[i], 0) THEN Fl("0")
  ELSE IF c.fam = "indep" \/ (c.fam \in Archimedean /\ FEq(Th(c), 0)) THEN FProd(u)
  ELSE CASE c.fam = "clayton" -> ClaytonCdf(Th(c), u)
         [] c.fam = "frank"   -> FrankCdf(Th(c), u)
         [] c.fam = "gumbel"  -> GumbelCdf(Th(c), u)
         [] c.fam = "gaussian" -> GaussCdf(CorrOf(c), u)

(* ---- densities ---- *)
ClaytonLogPdf(t, u) ==
  LET d == Len(u)
      l == ClaytonLn1pS(t, u)
  IN IF FEq(l, NegInf) THEN NegInf
     ELSE (SumOver(d - 1, LAMBDA k : FLn1p(t ** k)) -- ((1 ++ t) ** SumSeq(u, FLn)))
            -- ((d ++ (1 // t)) ** l)

\* Li_{-n}(z) = sum_k k! S(n+1, k+1) (z/(1-z))^(k+1); the coefficients c_k = k! S(n+1,k+1)
\* satisfy c'_k = (k+1) c_k + k c_{k-1}
NegPolylogCoef(n) ==
  Loop(n, <<1>>, LAMBDA c, m :
    [k \in 1..(Len(c) + 1) |-> (IF k <= Len(c) THEN k ** c[k] ELSE 0) ++ (IF k > 1 THEN (k - 1) ** c[k - 1] ELSE 0)])
\* ln Li_{-n}(z), given lw = ln(z / (1 - z))
LnNegPolylog(n, lw) == LET c == NegPolylogCoef(n) IN LnSumExp([k \in 1..Len(c) |-> FLn(c[k]) ++ (k ** lw)])
FrankLogPdf(t, u) ==
  LET d == Len(u)
      y == t ** FrankCdf(t, u)     \* z / (1 - z) = e^y - 1
      li == IF d = 2 THEN LnAbsExpm1(y) ++ y ELSE LnNegPolylog(d - 1, LnAbsExpm1(y))   \* d = 2: w (1 + w), also for negative t
  IN ((((d - 1) ** FLn(FAbs(t))) -- SumSeq(u, LAMBDA x : LnAbsExpm1(FNeg(t) ** x))) ++ li) -- (t ** FSum(u))

\* (-1)^d psi^(d)(s) = psi(s) s^-d sum_k a_{d,k} s^(k alpha)
GumbelCoef(d, alpha) ==
  Loop(d - 1, <<alpha>>, LAMBDA a, m :     \* m = current d
    [k \in 1..(m + 1) |-> (IF k <= m THEN (m -- (k ** alpha)) ** a[k] ELSE 0) ++ (IF k > 1 THEN alpha ** a[k - 1] ELSE 0)])
GumbelLogPdf(t, u) ==
  LET d == Len(u)
      alpha == 1 // t
      l == GumbelLnS(t, u)
      y == FExp(alpha ** l)
      poly == y ** Horner(GumbelCoef(d, alpha), y)
  IN ((FNeg(y) ++ FLn(poly)) -- (d ** l))
       ++ SumSeq(u, LAMBDA x : FLn(t) ++ (((t -- 1) ** FLn(FNeg(FLn(x)))) -- FLn(x)))

GaussLogPdf(R, u) ==
  LET z == [i \in 1..Len(u) |-> NQuantile(u[i])]
      L == Chol(R)
  IN FNeg(Half ** ((LnDet(L) ++ QuadForm(L, z)) -- FDot(z, z)))
\* multivariate Student log density, unit scale
MvtLogPdf(x, R, v) ==
  LET d == Len(x) L == Chol(R) IN
  (((LnGamma((v ++ d) ** Half) -- LnGamma(v ** Half)) -- ((d ** Half) ** FLn(v ** Pi))) -- (LnDet(L) ** Half))
    -- (((v ++ d) ** Half) ** FLn1p(QuadForm(L, x) // v))
StudentLogPdf(v, R, u) ==
  LET x == [i \in 1..Len(u) |-> TQuantile(u[i], v)]
  IN MvtLogPdf(x, R, v) -- SumSeq(x, LAMBDA y : TLogPdf(y, v))

\* log density at an interior point
LogPdf(c, u) ==
  IF c.fam = "indep" \/ (c.fam \in Archimedean /\ FEq(Th(c), 0)) \/ (c.fam = "gumbel" /\ FEq(Th(c), 1)) THEN Fl("0")
  ELSE CASE c.fam = "clayton" -> ClaytonLogPdf(Th(c), u)
         [] c.fam = "frank"   -> FrankLogPdf(Th(c), u)
         [] c.fam = "gumbel"  -> GumbelLogPdf(Th(c), u)
         [] c.fam = "gaussian" -> GaussLogPdf(CorrOf(c), u)
         [] c.fam = "student"  -> StudentLogPdf(Th(c), CorrOf(c), u)
Pdf(c, u) == FExp(LogPdf(c, u))

\* volume of the box with lower corner a and upper corner b under the distribution function
BoxVolume(c, a, b) ==
  LET d == Len(a)
      Corners == [1..d -> {0, 1}]
      Term(k) == LET sgn == IF Cardinality({i \in 1..d : k[i] = 0}) % 2 = 0 THEN 1 ELSE -1
                 IN sgn ** Cdf(c, [i \in 1..d |-> IF k[i] = 1 THEN b[i] ELSE a[i]])
      S == SetToSeq(Corners)
  IN FSum([j \in 1..Len(S) |-> Term(S[j])])
=============================================================================
