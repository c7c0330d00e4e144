----------------------------- MODULE Trace_C21 -----------------------------
(* Recorded calls of the matrix helpers.                                     *)
EXTENDS Replay, Spectral

TInit(s) == [asked |-> 0]
TNext(st, ev) == [asked |-> st.asked + 1]

Bad(name, ev, what) == {<<name, ev.key \o " " \o what>>}
\* pairs of the upper triangle row by row, counted from zero, starting m above the diagonal
UpperPairs(n, m) == FoldLeft(LAMBDA s, i : s \o [j \in 1..IMax(0, n - m - i) |-> <<i, i + m + j - 1>>], <<>>, [i \in 1..n |-> i - 1])
Pairs(ev) == LET u == UpperPairs(ev.n, ev.m) l == [i \in 1..Len(u) |-> <<u[i][2], u[i][1]>>]
             IN IF ev.side = "upper" THEN u ELSE IF ev.side = "lower" THEN l ELSE u \o l
TriFailing(ev) ==
  LET p == Pairs(ev) IN
  IF ev.err # "" THEN Bad("indices_of_the_triangle", ev, ev.err)
  ELSE (IF ev.rows = [i \in 1..Len(p) |-> p[i][1]] /\ ev.cols = [i \in 1..Len(p) |-> p[i][2]] THEN {} ELSE Bad("indices_of_the_triangle", ev, ToString(<<ev.rows, ev.cols>>)))
       \cup (IF ev.read = [i \in 1..Len(p) |-> p[i][1] * ev.n + p[i][2]] THEN {} ELSE Bad("indices_read_the_triangle", ev, ToString(ev.read)))
BuildFailing(ev) ==
  LET n == Len(ev.vec)
      d == CHOOSE k \in 1..60 : k * (k - 1) = 2 * n
  IN IF ev.res.k # "arr" \/ ev.res.shape # <<d, d>> THEN Bad("builds_a_square_matrix", ev, ev.res.k \o ev.res.e)
     ELSE IF \A i, j \in 1..d : FEq(ev.res.v[(i - 1) * d + j], IF i = j THEN Fl("1") ELSE ev.vec[PairIndex(d, i, j)]) THEN {}
     ELSE Bad("kth_value_at_the_kth_pair", ev, "")
SameMat(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : FEq(A[i][j], B[i][j])
CloseMat(A, B, rtol, atol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : FClose(A[i][j], B[i][j], rtol, atol)
Tight == Fl("1e-12")
ToCorrFailing(ev) ==
  IF ev.corr = <<>> THEN Bad("covariance_to_correlation", ev, ev.err)
  ELSE (IF CloseMat(ev.corr, ToCorr(ev.cov), Tight, Fl("1e-15")) /\ SameMat(ev.corr, ev.corr2) THEN {} ELSE Bad("covariance_to_correlation", ev, ""))
       \cup (IF \A i \in 1..Len(ev.cov) : FClose(ev.std[i], FSqrt(ev.cov[i][i]), Tight, 0) THEN {} ELSE Bad("standard_deviations", ev, ToString(MapSeq(ev.std, FShow))))
       \cup (IF ev.same THEN {} ELSE Bad("argument_unchanged", ev, ""))
ToCovFailing(ev) ==
  IF ev.cov = <<>> THEN Bad("correlation_to_covariance", ev, ev.err)
  ELSE (IF CloseMat(ev.cov, ToCov(ev.corr, ev.std), Tight, 0) THEN {} ELSE Bad("correlation_to_covariance", ev, ""))
       \cup (IF CloseMat(ev.cov, ev.orig, Fl("1e-9"), Fl("1e-300")) /\ CloseMat(ev.back, ev.corr, Fl("1e-9"), Fl("1e-15")) THEN {} ELSE Bad("conversions_undo_each_other", ev, ""))
B(x) == IF x THEN 1 ELSE 0
Plus(M, c, s) == [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> s * M[i][j] + (IF i = j THEN c ELSE 0)]]
\* verdicts with tolerance one half: decided exactly a little above and a little below
TolCheck(M, g) == IF Len(M) <= 3 THEN (IPsd(Plus(M, 99, 200)) => g[1] = 1) /\ (~IPsd(Plus(M, 101, 200)) => g[1] = 0)
                                      /\ (IPd(Plus(M, -101, 200)) => g[2] = 1) /\ (~IPd(Plus(M, -99, 200)) => g[2] = 0)
                  ELSE (IPsd(Plus(M, 9, 20)) => g[1] = 1) /\ (~IPsd(Plus(M, 11, 20)) => g[1] = 0)
                       /\ (IPd(Plus(M, -11, 20)) => g[2] = 1) /\ (~IPd(Plus(M, -9, 20)) => g[2] = 0)
PsdFailing(ev) ==
  UNION {(IF ev.psd[i] = B(IPsd(ev.ms[i])) THEN {} ELSE {<<"accepts_exactly_the_semi_definite", "is_psd(" \o ToString(ev.ms[i]) \o ") gave " \o ToString(ev.psd[i])>>})
         \cup (IF ev.strict[i] = B(IPd(ev.ms[i])) THEN {} ELSE {<<"strict_accepts_exactly_the_definite", "is_psd(" \o ToString(ev.ms[i]) \o ", strict) gave " \o ToString(ev.strict[i])>>})
         \cup (IF ev.tol = <<>> THEN {} ELSE IF TolCheck(ev.ms[i], ev.tol[i]) THEN {} ELSE {<<"tolerance_shifts_the_boundary", "is_psd(" \o ToString(ev.ms[i]) \o ", tol=0.5) gave " \o ToString(ev.tol[i])>>})
         \cup (IF ev.sym = <<>> THEN {} ELSE IF ev.sym[i] = 1 THEN {} ELSE {<<"symmetric", ToString(ev.ms[i])>>}) : i \in 1..Len(ev.ms)}
RealPsdFailing(ev) ==
  LET w == MinEigen(ev.m)
      slack == (Fl("1e-12") ** MaxAbs(ev.m)) ++ (Fl("1e-6") ** ev.tol)
      \* v(lo, g): g must be 1 when w is above lo, 0 when below
      V(lo, g) == IF (lo ++ slack) \prec w THEN g = 1 ELSE IF w \prec (lo -- slack) THEN g = 0 ELSE g \in {0, 1}
  IN (IF V(FNeg(ev.tol), ev.got[1]) THEN {} ELSE Bad("accepts_exactly_the_semi_definite", ev, "smallest eigenvalue " \o FShow(w) \o " gave " \o ToString(ev.got[1])))
     \cup (IF V(ev.tol, ev.got[2]) THEN {} ELSE Bad("strict_accepts_exactly_the_definite", ev, "smallest eigenvalue " \o FShow(w) \o " gave " \o ToString(ev.got[2])))
AsymFailing(ev) == IF ev.got = <<0, 0, 0>> THEN {} ELSE Bad("asymmetric_is_never_semi_definite", ev, ToString(ev.got))
RefuseFailing(ev) == IF ev.res.k = "exc" THEN {} ELSE Bad("refuses_what_is_not_a_matrix_of_this_kind", ev, ev.res.k)
NearFailing(ev) ==
  IF ev.x = <<>> THEN Bad("repairs_every_symmetric_matrix", ev, ev.err)
  ELSE
  LET n == Len(ev.m) w == MinEigen(ev.m) X == ev.x s == Std(ev.m)
      R == ToCorr(ev.m) Y == Keep([i \in 1..n |-> [j \in 1..n |-> X[i][j] // (s[i] ** s[j])]])
      slack == Fl("2e-14") ** (n ** MaxAbs(ev.m))       \* rounding error of an eigenvalue
      Repair == (IF \A i, j \in 1..n : FClose(Y[i][j], Y[j][i], 0, Fl("1e-9")) THEN {} ELSE Bad("repair_is_symmetric", ev, ToString(X)))
         \cup (IF \A i \in 1..n : FClose(X[i][i], ev.m[i][i], Fl("1e-9"), 0) THEN {} ELSE Bad("repair_keeps_the_diagonal", ev, ToString([i \in 1..n |-> FShow(X[i][i])])))
         \cup (IF Fl("-1e-9") \preceq MinEigen(Y) THEN {} ELSE Bad("repair_is_semi_definite", ev, FShow(MinEigen(Y))))
         \cup (IF ev.meth = "clipped" THEN IF CloseMat(Y, ToCorr(Clipped(ev.m, ev.thr)), 0, Fl("1e-7")) THEN {} ELSE Bad("repair_by_clipping", ev, "")
               ELSE IF n > 5 \/ IsNearest(R, Y, Fl("1e-6")) THEN {} ELSE Bad("repair_is_nearest", ev, ""))
      Unchanged == IF SameMat(X, ev.m) THEN {} ELSE Bad("valid_matrix_unchanged", ev, "")
  IN (IF ev.same THEN {} ELSE Bad("argument_unchanged", ev, "")) \cup
     (IF (Fl("-1e-12") ++ slack) \prec w THEN Unchanged ELSE IF w \prec (Fl("-1e-12") -- slack) THEN Repair ELSE IF Unchanged = {} THEN {} ELSE Repair)
TFailing(st, ev) ==
  CASE ev.op = "tri" -> TriFailing(ev)
    [] ev.op = "build" -> BuildFailing(ev)
    [] ev.op = "refuse" -> RefuseFailing(ev)
    [] ev.op = "tocorr" -> ToCorrFailing(ev)
    [] ev.op = "tocov" -> ToCovFailing(ev)
    [] ev.op = "psd" -> PsdFailing(ev)
    [] ev.op = "rpsd" -> RealPsdFailing(ev)
    [] ev.op = "asym" -> AsymFailing(ev)
    [] ev.op = "near" -> NearFailing(ev)
=============================================================================
