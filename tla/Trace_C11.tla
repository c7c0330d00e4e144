------------------------------ MODULE Trace_C11 ------------------------------
(* Recorded draws.  State: parameter version, known names, and the samples  *)
(* seen so far (seeded ones, and unseeded ones since the last seeded one).  *)
(* Law events carry the number of sample rows below each point of a lattice *)
(* and of rows equal to given ones; they are compared with the copula's     *)
(* distribution function.                                                   *)
EXTENDS Replay, Mixture

TInit(s) == [fam |-> s.init.fam, d |-> s.init.d, lo |-> s.init.lo, hi |-> s.init.hi, names |-> s.init.names, ver |-> 0, seen |-> <<>>, free |-> <<>>]
NoSeed == -1
Rec(ev, st) == [seed |-> ev.seed, n |-> ev.n, ver |-> st.ver, v |-> ev.res.v]
TNext(st, ev) ==
  CASE ev.op = "draw" -> IF ev.seed = NoSeed THEN [st EXCEPT !.free = Append(@, Rec(ev, st))]
                         ELSE [st EXCEPT !.seen = Append(@, Rec(ev, st)), !.free = <<>>]
    [] ev.op = "change" -> [st EXCEPT !.ver = @ + 1]
    [] ev.op = "learn" -> [st EXCEPT !.ver = @ + 1, !.names = ev.names]
    [] OTHER -> st

Inside(st, v) == \A i \in 1..Len(v) : (st.lo \preceq v[i]) /\ (v[i] \preceq st.hi)
DrawFailing(st, ev) ==
  LET r == ev.res IN
  IF r.k \notin {"arr", "df"} THEN {<<"draw_succeeds", r.k \o " " \o r.e>>}
  ELSE (IF r.shape = <<ev.n, st.d>> THEN {} ELSE {<<"n_rows_d_columns", ToString(r.shape)>>})
  \cup (IF Inside(st, r.v) THEN {} ELSE {<<"inside_the_cube_without_missing_values", ToString([i \in 1..Len(r.v) |-> FShow(r.v[i])])>>})
  \cup (IF st.names = <<>> THEN (IF r.k = "arr" THEN {} ELSE {<<"unlabelled_without_names", r.k>>})
        ELSE IF r.k = "df" /\ r.cols = st.names THEN {} ELSE {<<"labelled_with_the_known_names", r.k \o ToString(r.cols)>>})
  \cup {<<"same_seed_same_sample", "seed " \o ToString(ev.seed)>> : i \in {i \in 1..Len(st.seen) :
           st.seen[i].seed = ev.seed /\ st.seen[i].n = ev.n /\ st.seen[i].ver = st.ver /\ st.seen[i].v # r.v}}
  \cup (IF ~ev.continuous THEN {} ELSE
        {<<"different_seeds_different_samples", "seed " \o ToString(ev.seed)>> : i \in {i \in 1..Len(st.seen) :
           ev.seed # NoSeed /\ st.seen[i].seed # ev.seed /\ st.seen[i].n = ev.n /\ st.seen[i].ver = st.ver /\ st.seen[i].v = r.v}}
   \cup {<<"unseeded_draws_are_fresh", "">> : i \in {i \in 1..Len(st.free) : ev.seed = NoSeed /\ st.free[i].n = ev.n /\ st.free[i].v = r.v}})

(* ---- the law ---- *)
\* bivariate Student: conditioning on the first coordinate, x = sqrt(v) tan(a)
BvtCdf(x, y, r, v) ==
  LET b == FExp(LnBetaHalf(v))
      G(a) == LET z == FSqrt(v) ** (FSin(a) // FCos(a))
              IN FPow(FCos(a), v -- 1) ** TCdf((y -- (r ** z)) // FSqrt(((1 -- Sq(r)) ** (v ++ Sq(z))) // (v ++ 1)), v ++ 1)
  IN QuadN(G, FNeg(Pi // 2), FAtan(x // FSqrt(v)), 2) // b
\* two coordinates below 1
StudentPairCdf(c, u) ==
  LET k == Keep(u) x == [i \in 1..Len(k) |-> TQuantile(u[k[i]], Th(c))]
  IN IF Len(k) = 1 THEN u[k[1]] ELSE BvtCdf(x[1], x[2], CorrOf(c)[k[1]][k[2]], Th(c))
\* all three coordinates below their median, for elliptical laws
Orthant3(R) == (1 // 8) ++ ((FAsin(R[1][2]) ++ FAsin(R[1][3]) ++ FAsin(R[2][3])) // (4 ** Pi))
Expected(ev, u) ==
  CASE ev.fam = "student" -> IF Len(Keep(u)) = 3 THEN LET k == Keep(u) R == CorrOf(ev) IN Orthant3([i \in 1..3 |-> [j \in 1..3 |-> R[k[i]][k[j]]]])
                             ELSE StudentPairCdf(ev, u)
    [] ev.fam = "gmc" -> MixCopulaCdf(ev.mix, u)
    [] OTHER -> Cdf(ev, u)
\* 6 standard deviations of a frequency, plus the accuracy the law itself is computed with
Bound(p, n) == ((6 ** FSqrt((p ** (1 -- p)) // n)) ++ (3 // n)) ++ Fl("1e-4")
Prob(p) == FMax(0, FMin(1, p))
LawFailing(ev) ==
  IF ev.bad # "" THEN {<<"draw_succeeds", ev.bad>>} ELSE
     (IF ev.inside THEN {} ELSE {<<"inside_the_cube_without_missing_values", "large sample">>})
\cup UNION {LET p == Prob(Expected(ev, ev.at[i])) f == ev.below[i] // ev.n IN
            IF FAbs(f -- p) \preceq Bound(p, ev.n) THEN {}
            ELSE {<<"follows_the_copula", "at " \o ToString([j \in 1..Len(ev.at[i]) |-> FShow(ev.at[i][j])]) \o " frequency " \o FShow(f) \o " probability " \o FShow(p)>>} : i \in 1..Len(ev.at)}
\* rows drawn from data: each row is drawn with its frequency and nothing else is drawn
RowsFailing(ev) ==
  IF ev.bad # "" THEN {<<"draw_succeeds", ev.bad>>} ELSE
     (IF ev.other = 0 THEN {} ELSE {<<"draws_are_rows_of_the_data", ToString(ev.other)>>})
\cup UNION {LET p == ev.mult[i] // ev.total f == ev.count[i] // ev.n IN
            IF FAbs(f -- p) \preceq Bound(p, ev.n) THEN {} ELSE {<<"rows_are_drawn_evenly", FShow(f) \o " instead of " \o FShow(p)>>} : i \in 1..Len(ev.mult)}
TFailing(st, ev) ==
  CASE ev.op = "draw" -> DrawFailing(st, ev)
    [] ev.op \in {"change", "learn"} -> IF ev.bad = "" THEN {} ELSE {<<ev.op, ev.bad>>}
    [] ev.op = "law" -> LawFailing(ev)
    [] ev.op = "rows" -> RowsFailing(ev)
==============================================================================
