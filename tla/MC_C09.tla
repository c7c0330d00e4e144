------------------------------- MODULE MC_C09 -------------------------------
(***************************************************************************)
(* Design model of estimation by inversion: two columns of small integers  *)
(* are read row by row, keeping the running concordance sum; at the end    *)
(* tau-b is inverted for every family.  Checked for every pair of columns: *)
(* the running sum is the direct definition, tau lies in [-1, 1], negating *)
(* a column negates it, and inversion and tau undo each other.             *)
(***************************************************************************)
EXTENDS Measures, Correlation, TLC, Json
CONSTANTS N, K
VARIABLES x, y, s

Init == x = <<>> /\ y = <<>> /\ s = 0
ISg(a, b) == IF a > b THEN 1 ELSE IF a < b THEN -1 ELSE 0
RECURSIVE Gain(_, _, _)
Gain(i, a, b) == IF i = 0 THEN 0 ELSE ISg(a, x[i]) * ISg(b, y[i]) + Gain(i - 1, a, b)
Read == /\ Len(x) < N
        /\ \E a, b \in 1..K :
              /\ a >= (IF Len(x) = 0 THEN 1 ELSE x[Len(x)])
              /\ x' = Append(x, a) /\ y' = Append(y, b) /\ s' = s + Gain(Len(x), a, b)
Spec == Init /\ [][Read]_<<x, y, s>>

Full == Len(x) = N /\ Varies(x) /\ Varies(y)
tau == KendallOf(x, y)
NegCol(z) == [i \in 1..Len(z) |-> -z[i]]
RunningSum == Full => FEq(FSgn(tau), IF s > 0 THEN 1 ELSE IF s < 0 THEN -1 ELSE 0)
Bounded == Full => (Fl("-1.0000000001") \preceq tau) /\ (tau \preceq Fl("1.0000000001"))
Odd == Full => FClose(KendallOf(x, NegCol(y)), FNeg(tau), 0, Fl("1e-14"))
Symmetric == Full => FClose(KendallOf(y, x), tau, 0, Fl("1e-14"))
InRangeOf(f) == FAbs(tau) \prec Fl("0.999") /\ (f # "gumbel" \/ 0 \preceq tau)
InversionUndoes == (Full /\ x[N] = K) => \A f \in {"clayton", "gumbel", "gaussian"} \cup (IF y[1] = 1 THEN {"frank"} ELSE {}) :
   InRangeOf(f) => FClose(TauOf(f, ITauOf(f, tau)), tau, 0, Fl("1e-9"))
Emit == (Full /\ x[1] = 1) => PrintT("GEN " \o ToJson([x |-> x, y |-> y]))
=============================================================================
