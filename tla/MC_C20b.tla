------------------------------ MODULE MC_C20b ------------------------------
(* Histories of queries: every answer is the number itself, whatever was    *)
(* asked before and whatever became of earlier answers ("spoil": the caller *)
(* overwrites the list it was given).  Ideal memo: filled by any query.     *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Depth
VARIABLES memo, hist, answer
Fns == {"first", "second", "eulerian"}
Qs == {<<f, w, s>> : f \in Fns, w \in {"entry", "row", "spoil"}, s \in {"small", "large"}} \cup {<<f, "refused", s>> : f \in Fns, s \in {"above", "below", "text", "list"}}
True(f, s) == <<f, s>>          \* stands for the mathematical value
Init == memo = {} /\ hist = <<>> /\ answer = <<>>
Next == Len(hist) < Depth /\ \E x \in Qs :
  /\ hist' = Append(hist, x)
  /\ memo' = (IF x[2] = "refused" THEN memo ELSE memo \cup {<<x[1], x[3], True(x[1], x[3])>>})
  /\ answer' = (IF x[2] = "refused" THEN <<"refused">>
                ELSE IF \E m \in memo : m[1] = x[1] /\ m[2] = x[3] THEN (CHOOSE m \in memo : m[1] = x[1] /\ m[2] = x[3])[3] ELSE True(x[1], x[3]))
vars == <<memo, hist, answer>>
Spec == Init /\ [][Next]_vars
AnswersAreTrue == hist # <<>> => LET x == hist[Len(hist)] IN answer = IF x[2] = "refused" THEN <<"refused">> ELSE True(x[1], x[3])
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
===========================================================================
