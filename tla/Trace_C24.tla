----------------------------- MODULE Trace_C24 -----------------------------
(* Recorded densities and samples of stable and multivariate Student laws.   *)
EXTENDS Replay, Stable

TInit(s) == [calls |-> 0]
TNext(st, ev) == [calls |-> st.calls + 1]

Kept(ev) == IF ev.kept THEN {} ELSE {<<"arguments_are_left_alone", ev.key>>}
Shaped(ev, n) == IF ev.res.k = "ok" /\ Len(ev.got) = n THEN {} ELSE {<<"one_value_per_argument", ev.key \o " " \o ev.res.k \o ev.res.e>>}
Show(ev, i, want, got) == ev.key \o " element " \o ToString(i) \o " expected " \o FShow(want) \o " got " \o FShow(got)
Exact(ev) == FEq(ev.al, 2) \/ (FEq(ev.al, 1) /\ FEq(ev.be, 0))
\* densities are integrals computed to a few digits, and tail approximations where the integral vanishes
StableFailing(ev) ==
  Kept(ev) \cup Shaped(ev, Len(ev.x)) \cup
  (IF ev.got = <<>> THEN {} ELSE
   LET place == EagerSeq(Place(ev.al, ev.be, ev.ga, ev.de, ev.pm)) d0 == place[1] g0 == place[2]
       searched == ev.pm = 2 /\ ~FEq(ev.be, 0)
       rel == IF searched THEN Fl("5e-3") ELSE IF Exact(ev) THEN Fl("1e-10") ELSE Fl("3e-4")
   IN UNION {LET z == (ev.x[i] -- d0) // g0
                 f == StableDens(ev.al, ev.be, z)
                 ln == (IF FEq(ev.al, 2) THEN FNeg(Sq(z) // 4) -- FLn(2 ** FSqrt(Pi)) ELSE FLn(f)) -- FLn(g0)
                 want == IF ev.log THEN ln ELSE f // g0
                 \* far below the peak the logarithm is only required to be far below
                 ok == IF ev.log THEN (IF Exact(ev) THEN FClose(ev.got[i], want, rel, rel)
                                       ELSE IF f \prec Fl("1e-10") /\ ~(f // (Fl("1e-300") ++ Pareto(ev.al, ev.be, z)) \preceq Fl("1.2") /\ Fl("0.8") \preceq f // (Fl("1e-300") ++ Pareto(ev.al, ev.be, z))) THEN (FIsNaN(ev.got[i]) = FALSE /\ ev.got[i] \preceq Fl("-15") -- FLn(g0))
                                       ELSE FClose(ev.got[i], want, Fl("0"), rel ** (IF Fl("100") \prec FAbs(z) THEN 4 ELSE 1)))
                       ELSE FClose(ev.got[i], want, rel ** (IF ~Exact(ev) /\ Fl("100") \prec FAbs(z) THEN 4 ELSE 1), IF Exact(ev) THEN Fl("1e-300") ELSE Fl("1e-8") // g0)
             IN IF ok THEN {} ELSE {<<"density_of_the_stable_law", Show(ev, i, want, ev.got[i])>>} : i \in 1..Len(ev.x)})
PairFailing(ev) ==
  IF Len(ev.one) # Len(ev.x) \/ Len(ev.two) # Len(ev.x) THEN {<<"one_value_per_argument", ev.key>>} ELSE
  UNION {LET two == IF ev.what = "mirror" THEN ev.two[i] ELSE IF ev.log THEN ev.two[i] -- FLn(ev.ga) ELSE ev.two[i] // ev.ga
             size == IF ev.log THEN FExp(two) ELSE two
         IN IF (IF ev.log THEN FClose(ev.one[i], two, Fl("1e-6"), Fl("1e-6") // (Fl("1e-9") ++ size)) ELSE FClose(ev.one[i], two, Fl("1e-6"), Fl("1e-9"))) THEN {}
            ELSE {<<IF ev.what = "mirror" THEN "mirrored_when_the_skewness_changes_sign" ELSE "scales_and_shifts", ev.key \o " at " \o FShow(ev.x[i]) \o ": " \o FShow(ev.one[i]) \o " and " \o FShow(two)>>} : i \in 1..Len(ev.x)}
ModeFailing(ev) ==
  IF Len(ev.got) # 7 THEN {<<"one_value_per_argument", ev.key \o ev.res.e>>} ELSE
  {<<"mode_at_the_location", ev.key \o " " \o FShow(ev.got[4]) \o " against " \o FShow(ev.got[i])>> : i \in {i \in 1..7 : ~(ev.got[i] \preceq (ev.got[4] ** Fl("1.00001")))}}
Bound(p, n) == ((6 ** FSqrt((p ** (1 -- p)) // n)) ++ (3 // n)) ++ Fl("1e-5")
Prob(p) == FMax(0, FMin(1, p))
Freq(ev, what, p0, k, more) == LET p == Prob(p0) f == k // ev.n IN IF FAbs(f -- p) \preceq Bound(p, ev.n) THEN {} ELSE {<<what, ev.key \o more \o " frequency " \o FShow(f) \o " probability " \o FShow(p)>>}
RvsFailing(ev) ==
  IF ev.res.k # "ok" THEN {<<"one_value_per_argument", ev.key \o ev.res.k \o ev.res.e>>} ELSE
  LET place == EagerSeq(Place(ev.al, ev.be, ev.ga, ev.de, ev.pm)) IN
  UNION {Freq(ev, "samples_of_the_stable_law", StableCdf(ev.al, ev.be, (ev.at[i] -- place[1]) // place[2]), ev.below[i], " below " \o FShow(ev.at[i])) : i \in 1..Len(ev.at)}
\* logarithmic series with parameter e = 1 - exp(a): P(k) = e^k / (-a k)
LogSeriesCdf(al, t) == LET e == FNeg(FExpm1(al)) IN Loop(t, <<Fl("0"), Fl("1")>>, LAMBDA acc, k : LET q == acc[2] ** e IN EagerSeq(<<acc[1] ++ (q // (FNeg(al) ** k)), q>>))[1]
SeriesFailing(ev) ==
  IF ev.res.k # "ok" THEN {<<"one_value_per_argument", ev.key \o ev.res.k \o ev.res.e>>} ELSE
  (IF ev.whole THEN {} ELSE {<<"samples_of_the_logarithmic_series", ev.key \o " not whole numbers from one on">>})
  \cup UNION {Freq(ev, "samples_of_the_logarithmic_series", LogSeriesCdf(ev.al, ev.at[i]), ev.below[i], " up to " \o ToString(ev.at[i])) : i \in 1..Len(ev.at)}
UniformFailing(ev) ==
  IF ev.res.k # "ok" THEN {<<"one_value_per_argument", ev.key \o ev.res.k \o ev.res.e>>} ELSE
  (IF ev.inside /\ ev.apart THEN {} ELSE {<<"samples_of_the_uniform_law", ev.key>>})
  \cup UNION {Freq(ev, "samples_of_the_uniform_law", ev.at[i], ev.below[i], " below " \o FShow(ev.at[i])) : i \in 1..Len(ev.at)}
  \cup (IF ev.again THEN {} ELSE {<<"same_seed_same_sample", ev.key>>}) \cup (IF ev.other THEN {} ELSE {<<"different_seeds_different_samples", ev.key>>})
Beyond == Fl("10000")
MvtFailing(ev) ==
  Shaped(ev, Len(ev.x)) \cup
  (IF ev.got = <<>> THEN {} ELSE
   UNION {LET dev == [j \in 1..Len(ev.mean) |-> ev.x[i][j] -- ev.mean[j]]
              t == MvtLogPdf(dev, ev.cov, ev.df) nrm == MvnDev(dev, ev.cov)
              want == IF Beyond \prec ev.df THEN nrm ELSE t
              Near(w) == FClose(IF ev.log THEN ev.got[i] ELSE FLn(ev.got[i]), w, Fl("1e-9"), Fl("1e-9")) \/ (~ev.log /\ FEq(ev.got[i], 0) /\ w \prec -740) \/ (~ev.log /\ w \prec -700 /\ FLn(ev.got[i]) \prec -690)
          IN IF Near(want) \/ (Beyond \prec ev.df /\ Near(t)) THEN {} ELSE {<<"density_of_the_multivariate_student_law", Show(ev, i, want, IF ev.log THEN ev.got[i] ELSE FLn(ev.got[i]))>>} : i \in 1..Len(ev.x)})
MvtRvsFailing(ev) ==
  IF ev.res.k # "ok" THEN {<<"one_value_per_argument", ev.key \o ev.res.k \o ev.res.e>>} ELSE
  LET normal == Beyond \prec ev.df
      P(j, t) == LET sd == FSqrt(ev.cov[j][j]) m == ev.mean[j] IN
                 IF normal THEN NCdf((t -- m) // sd)
                 ELSE IF ev.type = "shifted" THEN NonCentral((t -- m) // sd, Fl("0"), ev.df) ELSE NonCentral(t // sd, m // sd, ev.df)
      central == ev.type = "shifted" \/ \A j \in 1..Len(ev.mean) : FEq(ev.mean[j], 0)
      rho == ev.cov[1][2] // FSqrt(ev.cov[1][1] ** ev.cov[2][2])
  IN UNION {UNION {Freq(ev, "samples_of_the_multivariate_student_law", P(j, ev.at[j][i]), ev.below[j][i], " component " \o ToString(j) \o " below " \o FShow(ev.at[j][i])) : i \in 1..Len(ev.at[j])} : j \in 1..Len(ev.mean)}
     \cup (IF ~central \/ Len(ev.mean) < 2 THEN {} ELSE Freq(ev, "samples_have_the_dependence_of_the_scale", Fl("0.25") ++ (FAsin(rho) // (2 ** Pi)), ev.orth, " lower quadrant"))
     \cup (IF ev.again THEN {} ELSE {<<"same_seed_same_sample", ev.key>>}) \cup (IF ev.other THEN {} ELSE {<<"different_seeds_different_samples", ev.key>>})
SizeFailing(ev) == IF ev.res.k = "ok" /\ ev.shape = ev.want /\ ev.finite THEN {} ELSE {<<"one_value_per_argument", ev.key \o ToString(ev.shape) \o ev.res.e>>}
TFailing(st, ev) ==
  CASE ev.op = "stable" -> StableFailing(ev)
    [] ev.op = "pair" -> PairFailing(ev)
    [] ev.op = "mode" -> ModeFailing(ev)
    [] ev.op = "rvs" -> RvsFailing(ev)
    [] ev.op = "series" -> SeriesFailing(ev)
    [] ev.op = "uniform" -> UniformFailing(ev)
    [] ev.op = "mvt" -> MvtFailing(ev)
    [] ev.op = "mvtrvs" -> MvtRvsFailing(ev)
    [] ev.op = "size" -> SizeFailing(ev)
    [] ev.op = "fresh" -> IF ev.ok THEN {} ELSE {<<"different_seeds_different_samples", ev.key>>}
    [] ev.op = "refuse" -> IF ev.res.k = "exc" THEN {} ELSE {<<"refuses_invalid_shapes", ev.key>>}
=============================================================================
