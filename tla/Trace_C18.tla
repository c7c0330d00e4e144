----------------------------- MODULE Trace_C18 -----------------------------
(* Recorded life of a mixture parameter set and of a copula holding one.    *)
(* State: sizes, the set P and the copula's set C as sequences of numbers   *)
(* (records [w, mu, S], flat), or "none".                                   *)
EXTENDS Replay, MixParams

None == [w |-> <<>>, mu |-> <<>>, S |-> <<>>]
TInit(s) == [m |-> s.init.m, d |-> s.init.d, P |-> None, C |-> None]
Sizes(st) == [m |-> st.m, d |-> st.d]
IsNum(x) == x.k \in {"arr", "seq"}
Val(x) == [w |-> x.prob.v, mu |-> x.means.v, S |-> x.covs.v]
\* a set given as a whole; from a dictionary the sizes are those of the means
MOf(st, ev) == IF ev.form = "dict" THEN (IF Len(ev.x.means.shape) = 2 THEN ev.x.means.shape[1] ELSE -1) ELSE st.m
DOf(st, ev) == IF ev.form = "dict" THEN (IF Len(ev.x.means.shape) = 2 THEN ev.x.means.shape[2] ELSE -1) ELSE st.d
ValidSet(m, d, x) == ValidProb(m, x.prob) /\ ValidMeans(m, d, x.means) /\ ValidCovs(m, d, x.covs)
NewOk(st, ev) == ev.missing = "" /\ ValidSet(MOf(st, ev), DOf(st, ev), ev.x)
WriteOk(st, ev) == CASE ev.field = "prob" -> ValidProb(st.m, ev.x) [] ev.field = "means" -> ValidMeans(st.m, st.d, ev.x) [] ev.field = "covs" -> ValidCovs(st.m, st.d, ev.x)
Accepted(ev) == ev.res.k # "exc"
Written(P, f, v) == CASE f = "prob" -> [P EXCEPT !.w = v] [] f = "means" -> [P EXCEPT !.mu = v] [] f = "covs" -> [P EXCEPT !.S = v]
WellFormed(st, x) == IsNum(x.prob) /\ IsNum(x.means) /\ IsNum(x.covs) /\ x.prob.shape = <<st.m>> /\ x.means.shape = <<st.m, st.d>> /\ x.covs.shape = <<st.m, st.d, st.d>>

TNext(st, ev) ==
  CASE ev.op = "new" -> IF Accepted(ev) THEN [st EXCEPT !.P = Val(ev.x)] ELSE st
    [] ev.op = "set" -> IF Accepted(ev) THEN [st EXCEPT !.P = Written(st.P, ev.field, ev.x.v)] ELSE st
    [] ev.op = "look" -> IF ev.who = "set" THEN (IF WellFormed(st, ev.now) THEN [st EXCEPT !.P = Val(ev.now)] ELSE st) ELSE IF ev.now.prob.k = "none" THEN [st EXCEPT !.C = None] ELSE IF WellFormed(st, ev.now) THEN [st EXCEPT !.C = Val(ev.now)] ELSE st
    [] ev.op = "attach" -> IF Accepted(ev) THEN (IF ev.form = "none" THEN [st EXCEPT !.C = None] ELSE [st EXCEPT !.C = Val(ev.x)]) ELSE st
    [] OTHER -> st

Show(v) == ToString([i \in 1..Len(v) |-> FShow(v[i])])
\* the weights of a set that went through a vector may move off the ends of the unit interval
SameWeights(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FClose(a[i], b[i], 0, tol)
HoldsFailing(st, want, x, tol) ==
     (IF SameWeights(want.w, x.prob.v, tol) THEN {} ELSE {<<"holds_the_weights", Show(x.prob.v) \o " expected " \o Show(want.w)>>})
\cup (IF Same(want.mu, x.means.v, Fl("1e-12")) THEN {} ELSE {<<"holds_the_means", Show(x.means.v) \o " expected " \o Show(want.mu)>>})
\cup {<<"holds_the_covariances", "component " \o ToString(k) \o " " \o Show(x.covs.v) \o " for " \o Show(want.S)>> :
        k \in {k \in 1..st.m : ~Holds(MatsOf(want.S, st.m, st.d)[k], MatsOf(x.covs.v, st.m, st.d)[k])}}
ValidFailing(st, x) ==
     (IF (\A i \in 1..st.m : 0 \preceq x.prob.v[i]) /\ FClose(FSum(x.prob.v), 1, 0, Fl("1e-6")) THEN {} ELSE {<<"weights_are_a_distribution", Show(x.prob.v)>>})
\cup {<<"covariances_are_semi_definite", "component " \o ToString(k) \o " " \o Show(x.covs.v)>> :
        k \in {k \in 1..st.m : LET A == MatsOf(x.covs.v, st.m, st.d)[k] IN ~(SymmetricMat(A) /\ SemiDefinite(A, Fl("1e-9")))}}
LookFailing(st, ev) ==
  LET want == IF ev.who = "set" THEN st.P ELSE st.C IN
  IF want = None THEN (IF ev.now.prob.k = "none" THEN {} ELSE {<<"copula_without_parameters", ev.now.prob.k>>})
  ELSE IF ~WellFormed(st, ev.now) THEN {<<"sizes_match", ToString(<<ev.now.prob.k, ev.now.prob.shape, ev.now.means.shape, ev.now.covs.shape>>) \o " for " \o ToString(Sizes(st))>>}
  ELSE HoldsFailing(st, want, ev.now, IF ev.who = "set" THEN Fl("1e-12") ELSE Fl(ev.tol)) \cup ValidFailing(st, ev.now)
       \cup (IF ev.sizes = <<st.m, st.d>> THEN {} ELSE {<<"reports_its_sizes", ToString(ev.sizes)>>})
VectorFailing(st, ev) ==
  IF ev.what # "round" THEN (IF Accepted(ev) THEN {<<"refuses_vector_of_wrong_length", ev.what>>} ELSE {})
  ELSE IF ~Accepted(ev) THEN {<<"converts_to_vector_and_back", ev.res.e>>}
  ELSE IF ~WellFormed(st, ev.now) THEN {<<"sizes_match", "after conversion">>}
  ELSE HoldsFailing(st, st.P, ev.now, Fl("1e-4")) \cup ValidFailing(st, ev.now)
       \cup (IF (\E i \in 1..st.m : st.P.w[i] \prec Fl("1e-12") \/ Fl("0.9999999") \prec st.P.w[i]) \/ SameWeights(st.P.w, ev.now.prob.v, Fl("1e-6")) THEN {} ELSE {<<"holds_the_weights", "after conversion " \o Show(ev.now.prob.v) \o " expected " \o Show(st.P.w)>>})
IterFailing(st, ev) ==
  IF ~Accepted(ev) THEN {<<"iterates", ev.res.e>>} ELSE IF ~WellFormed(st, ev.now) THEN {<<"iterates_one_triple_per_component", "">>} ELSE HoldsFailing(st, st.P, ev.now, Fl("1e-12"))
TFailing(st, ev) ==
  CASE ev.op = "new" -> IF Accepted(ev) = NewOk(st, ev) THEN {} ELSE {<<(IF Accepted(ev) THEN "refuses_invalid_set" ELSE "accepts_valid_set"), ev.key \o " " \o ev.res.e>>}
    [] ev.op = "set" -> IF Accepted(ev) = WriteOk(st, ev) THEN {} ELSE {<<(IF Accepted(ev) THEN "refuses_invalid_" ELSE "accepts_valid_") \o ev.field, ev.key \o " " \o Show(ev.x.v) \o " " \o ev.res.e>>}
    [] ev.op = "attach" -> IF Accepted(ev) = ev.fits THEN {} ELSE {<<(IF Accepted(ev) THEN "refuses_set_of_another_size" ELSE "accepts_set_of_its_size"), ev.key \o " " \o ev.res.e>>}
    [] ev.op = "look" -> LookFailing(st, ev)
    [] ev.op = "vector" -> VectorFailing(st, ev)
    [] ev.op = "iterate" -> IterFailing(st, ev)
    [] ev.op = "render" -> IF ev.res.k = "str" THEN {} ELSE {<<"renders", ev.res.e>>}
=============================================================================
