------------------------------- MODULE MC_C10 -------------------------------
(***************************************************************************)
(* Design model of input handling: a copula that may learn its column      *)
(* names is asked to evaluate every form.  Once the names are known,       *)
(* labelled input lands on the right coordinates whatever its order.       *)
(***************************************************************************)
EXTENDS Inputs, TLC, Json
CONSTANTS Dims, Whole    \* dimensions; those asked in every container
VARIABLES d, known, form, last

Init == d \in Dims /\ known = FALSE /\ form = [kind |-> "none"] /\ last = <<>>
Learn == known' = TRUE /\ UNCHANGED <<d, form, last>>
Forms == [kind : SinglePoint \cup ManyPoints, order : OrdersOf(d), style : {"positional", "keyword"}]
Sensible(f) == (f.order = Ident(d) /\ (d \in Whole \/ f.kind \in {"matrix", "vector"})) \/ f.kind \in Labelled
Ask == /\ \E f \in Forms : Sensible(f) /\ form' = f /\ last' = Lands(f, known)
       /\ UNCHANGED <<d, known>>
Refuse == /\ \E k \in Malformed, s \in {"positional", "keyword"} : form' = [kind |-> k, order |-> Ident(d), style |-> s]
          /\ last' = <<>> /\ UNCHANGED <<d, known>>
Next == form.kind = "none" /\ (Learn \/ Ask \/ Refuse)
Spec == Init /\ [][Next]_<<d, known, form, last>>

MatchedByName == (last # <<>> /\ known) => last = Ident(d)
PositionalOtherwise == (last # <<>> /\ ~known) => last = form.order
Lossless == last # <<>> => {last[j] : j \in 1..d} = 1..d
Emit == form.kind # "none" => PrintT("GEN " \o ToJson([d |-> d, known |-> known, form |-> form]))
=============================================================================
