------------------------------ MODULE Printed ------------------------------
(***************************************************************************)
(* What the summary of a copula shows.  A copula is described by a record  *)
(* [kind, name, dim, theta, R, df, emp, margins, inner, mix, algo]; its    *)
(* page is a sequence of entries [words, nums]: the words identify the     *)
(* entry, the numbers are those that follow them.  Numbers are opaque      *)
(* here: the design model uses integers, trace validation real numbers.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

Entry(ws, ns) == [words |-> ws, nums |-> ns]
Flat(M) == FoldLeft(LAMBDA acc, r : acc \o r, <<>>, M)
Each(n, F(_)) == FoldLeft(LAMBDA acc, k : acc \o F(k), <<>>, [k \in 1..n |-> k])

Blank(kind, name, dim) == [kind |-> kind, name |-> name, dim |-> dim, theta |-> <<>>, R |-> <<>>, df |-> <<>>,
  emp |-> <<>>, margins |-> <<>>, inner |-> <<>>, mix |-> <<>>, algo |-> ""]

MatrixEntry(o) == <<Entry(<<"correlation", "matrix">>, Flat(o.R))>>
PlainBody(o) ==
  CASE o.kind = "archimedean" -> <<Entry(<<"theta">>, o.theta)>>
    [] o.kind = "gaussian" -> MatrixEntry(o)
    [] o.kind = "student" -> <<Entry(<<"degree", "of", "freedom">>, o.df)>> \o MatrixEntry(o)
    [] o.kind = "indep" -> <<>>
    [] o.kind = "empirical" -> <<Entry(<<"dimensions">>, <<o.dim>>), Entry(<<"ties", o.emp[1].ties>>, <<>>), Entry(<<"offset">>, o.emp[1].offset), Entry(<<"smoothing", o.emp[1].smoothing>>, <<>>)>>
\* the title also names the dimension
Plain(o, N(_)) == <<Entry(<<o.name, "copula", "with">>, <<N(o.dim)>>)>> \o
  (IF o.kind = "empirical" THEN [i \in 1..4 |-> IF i = 1 THEN Entry(<<"dimensions">>, <<N(o.dim)>>) ELSE PlainBody(o)[i]] ELSE PlainBody(o))

\* text: one line per parameter of a margin; markup: a table per margin
MarginText(m) == <<Entry(<<"type", m.type, m.names[1]>>, <<m.values[1]>>)>> \o [i \in 1..(Len(m.names) - 1) |-> Entry(<<m.names[i + 1]>>, <<m.values[i + 1]>>)]
MarginHtml(m) == <<Entry(m.names \o <<m.type>>, m.values)>>
MixText(x, N(_)) == Each(x.m, LAMBDA k : <<Entry(<<"component">>, <<N(k)>>), Entry(<<"probability">>, <<x.w[k]>>), Entry(<<"mean">>, x.mu[k]), Entry(<<"covariance">>, Flat(x.S[k]))>>)
MixHtml(o, x, N(_)) == <<Entry(<<"mixture">>, <<N(x.m)>>), Entry(<<"components">>, <<N(o.dim)>>), Entry(<<"mixture", "probability">>, x.w), Entry(<<"means">>, Flat(x.mu))>>
  \o [k \in 1..x.m |-> Entry(<<"margin">>, <<N(k)>> \o Flat(x.S[k]))]
  \o (IF o.algo = "" THEN <<>> ELSE <<Entry(<<"algorithm", o.algo>>, <<>>)>>)

Page(o, form, N(_)) ==
  CASE o.kind = "marginal" -> <<Entry(<<"marginal", "copula", "with">>, <<N(o.dim)>>)>>
         \o Each(Len(o.margins), LAMBDA k : IF form = "text" THEN MarginText(o.margins[k]) ELSE MarginHtml(o.margins[k]))
         \o Plain(o.inner[1], N)
    [] o.kind = "gmc" -> IF o.mix = <<>> THEN <<Entry(<<"none">>, <<>>)>> ELSE IF form = "text" THEN MixText(o.mix[1], N) ELSE MixHtml(o, o.mix[1], N)
    [] OTHER -> Plain(o, N)

\* all words of ws occur in text, in their order
InOrder(ws, text) ==
  FoldLeft(LAMBDA k, w : LET at == {j \in k..Len(text) : text[j] = w} IN IF at = {} THEN Len(text) + 2 ELSE 1 + CHOOSE j \in at : \A i \in at : j <= i,
    1, ws) <= Len(text) + 1
Shows(entry, sec, Eq(_, _)) ==
  /\ InOrder(entry.words, sec.words)
  /\ (entry.nums = <<>> \/ (Len(entry.nums) = Len(sec.nums) /\ \A i \in 1..Len(sec.nums) : Eq(sec.nums[i], entry.nums[i])))
\* index of the first entry that page P does not show in its place, 0 when all are shown in order
FirstMissing(es, P, Eq(_, _)) ==
  FoldLeft(LAMBDA acc, i :
      IF acc.missing # 0 THEN acc
      ELSE LET at == {j \in acc.from..Len(P) : Shows(es[i], P[j], Eq)}
           IN IF at = {} THEN [acc EXCEPT !.missing = i]
              ELSE LET j == CHOOSE j \in at : \A k \in at : j <= k
                   IN [acc EXCEPT !.from = IF es[i].nums = <<>> THEN j ELSE j + 1],
    [from |-> 1, missing |-> 0], [i \in 1..Len(es) |-> i]).missing
=============================================================================
