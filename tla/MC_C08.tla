------------------------------- MODULE MC_C08 -------------------------------
(***************************************************************************)
(* Life cycle of a copula.  Data sets are identified by the step at which  *)
(* they were offered.  Successful fits (array, labelled table, data given  *)
(* as they are) replace parameters and report together; refused fits,      *)
(* refused categories and reads change nothing; assigning parameters       *)
(* changes the parameters and leaves the report of the last fit.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES params, report, cols, hist

Good == {"array", "table", "asis"}
Bad == {"dim", "unit", "rows", "method", "category"}
None == 0
Init == params = <<"initial", 0>> /\ report = None /\ cols = None /\ hist = <<>>
Step == Len(hist) + 1
Fit(g) == /\ params' = <<"fit", Step>> /\ report' = Step
          /\ cols' = IF g = "table" THEN Step ELSE cols
Assign == params' = <<"given", Step>> /\ UNCHANGED <<report, cols>>
Do(op) == /\ Len(hist) < Depth /\ hist' = Append(hist, op)
          /\ IF op \in Good THEN Fit(op) ELSE IF op = "assign" THEN Assign ELSE UNCHANGED <<params, report, cols>>
Next == \E op \in Good \cup Bad \cup {"assign"} : Do(op)
Spec == Init /\ [][Next]_<<params, report, cols, hist>>

\* the report is none until a fit succeeds, and then describes the last successful fit
LastGood == IF \E i \in 1..Len(hist) : hist[i] \in Good THEN CHOOSE i \in 1..Len(hist) : hist[i] \in Good /\ \A j \in (i + 1)..Len(hist) : hist[j] \notin Good ELSE 0
ReportOfLastFit == report = LastGood
\* estimates and report go together
Together == params[1] = "fit" => report = params[2]
AllOrNothing == [][(params' # params /\ params'[1] = "fit") <=> (report' # report)]_<<params, report, cols, hist>>
RefusedChangesNothing == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')] \in Bad) => (params' = params /\ report' = report /\ cols' = cols)]_<<params, report, cols, hist>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson([hist |-> hist]))
=============================================================================
