------------------------------- MODULE Combin -------------------------------
(***************************************************************************)
(* Combinatorial numbers over unbounded integers (decimal strings), and    *)
(* the coefficients of the Gumbel generator derivatives.                   *)
(***************************************************************************)
EXTENDS Reals, TLC

MaxN == 48
EagerS(s) == FoldLeft(LAMBDA acc, x : Append(acc, x), <<>>, s)
Z0 == ZAdd(0, 0)
Z1 == ZAdd(1, 0)
\* rows n = 0..MaxN of a triangle, entry k at position k + 1
Triangle(E(_, _, _, _)) ==
  FoldLeft(LAMBDA T, n : Append(T, EagerS([i \in 1..(n + 1) |-> E(n, i - 1, IF i = 1 THEN Z0 ELSE T[n][i - 1], IF i > n THEN Z0 ELSE T[n][i])])),
           <<<<Z1>>>>, [n \in 1..MaxN |-> n])
\* signed first kind, second kind, Eulerian (entry n, k from the entries k - 1 and k of row n - 1)
First == Triangle(LAMBDA n, k, a, b : ZAdd(a, ZMul(1 - n, b)))
Second == Triangle(LAMBDA n, k, a, b : ZAdd(a, ZMul(k, b)))
Euler == Triangle(LAMBDA n, k, a, b : IF k = n THEN Z0 ELSE ZAdd(ZMul(k + 1, b), ZMul(n - k, a)))
Pascal == Triangle(LAMBDA n, k, a, b : ZAdd(a, b))
At(T, n, k) == T[n + 1][k + 1]
AtF(T, n, k) == ZToF(At(T, n, k))

\* falling factorial x (x - 1) ... (x - r + 1) and generalised binomial coefficient, r a natural number
Falling(x, r) == ProdOver(r, LAMBDA i : x -- (i - 1))
Binomial(x, r) == ProdOver(r, LAMBDA i : (x -- (i - 1)) // i)
\* bound on the size of the terms from which these are known: the arguments carry rounding errors
FallingSize(x, r) == ProdOver(r, LAMBDA i : FAbs(x -- (i - 1)) ++ 1)
BinomialSize(x, r) == ProdOver(r, LAMBDA i : (FAbs(x -- (i - 1)) ++ 1) // i)
\* sign of binomial(j p / q, d) (-1)^(d - j) for integers p, q
FallingSign(p, q, j, d) ==
  LET s == FoldLeft(LAMBDA acc, i : acc * (LET x == (p * j) - (q * (i - 1)) IN IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0), 1, [i \in 1..d |-> i])
  IN s * (IF (d - j) % 2 = 0 THEN 1 ELSE -1)

(* a[d, k] = (-1)^(d - k) sum_j alpha^j s(d, j) S(j, k), by the recursion whose terms are all positive,
   scaled by 1 / (d - 1)! to stay within the range of doubles *)
GumbelScaled(d, al) ==
  FoldLeft(LAMBDA a, n : EagerS([k \in 1..(n + 1) |-> ((IF k = 1 THEN Fl("0") ELSE al ** a[k - 1]) ++ (IF k > n THEN Fl("0") ELSE (n -- (al ** k)) ** a[k])) // n]),
           <<al>>, [n \in 1..(d - 1) |-> n])
LnFact(n) == SumOver(n, LAMBDA i : FLn(FInt(i)))
GumbelLogCoef(d, al) == LET a == GumbelScaled(d, al) c == LnFact(d - 1) IN EagerS([k \in 1..d |-> FLn(a[k]) ++ c])
\* log of the sum over k of exp(v[k])
LogSumExp(v) == LET m == MaxSeq(v) IN IF FEq(m, NegInf) THEN NegInf ELSE m ++ FLn(SumSeq(v, LAMBDA x : FExp(x -- m)))
GumbelLogPoly(lc, lx) == LogSumExp([k \in 1..Len(lc) |-> lc[k] ++ (k ** lx)])
\* P(sum of n Sibuya(alpha) variables = x)
SibuyaLog(x, n, al) ==
  IF x < n \/ (n = 0 /\ x > 0) THEN NegInf ELSE IF n = 0 THEN Fl("0")
  ELSE (GumbelLogCoef(x, al)[n] ++ LnFact(n)) -- LnFact(x)

(* Size of what each formula sums up, relative to the result (log): the rounding error of the formula. *)
StirlingSize(d, k, al) == LogSumExp([i \in 1..(d + 1 - k) |-> LET j == k + i - 1 IN (j ** FLn(al)) ++ (FLn(FAbs(AtF(First, d, j))) ++ FLn(AtF(Second, j, k)))])
SibuyaSize(x, n, al) == FLn(SumOver(n, LAMBDA j : AtF(Pascal, n, j) ** BinomialSize(al ** j, x)))
\* probability of at most m events of a Poisson law with mean x
PoisCdf(m, x) == FExp(FNeg(x)) ** (1 ++ SumOver(m, LAMBDA i : ProdOver(i, LAMBDA l : x // l)))
PoissonSize(d, al, lx) ==
  LET x == FExp(lx)
  IN LogSumExp([k \in 1..d |-> ((k ** lx) ++ (x -- LnFact(k))) ++ (FLn(PoisCdf(d - k, x)) ++ SumOver(d, LAMBDA i : FLn(FAbs((al ** k) -- (i - 1)) ++ 1)))])
=============================================================================
