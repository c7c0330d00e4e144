------------------------------- MODULE Inputs -------------------------------
(***************************************************************************)
(* Input forms of the evaluation methods.  A form is a record              *)
(*   [kind, order, rows, style]                                            *)
(* kind: container; order: position k of the container holds column        *)
(* order[k] of the copula; rows: which points it holds.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Labelled == {"table", "series", "frame_row", "table_index"}
SinglePoint == {"list", "tuple", "vector", "series", "frame_row", "row_matrix", "nested", "ints", "f4", "strided_row"}
ManyPoints == {"matrix", "table", "table_index", "nested_many", "fortran", "strided", "ints_many", "f4_many", "readonly"}
Malformed == {"short", "long", "wide", "narrow", "cube", "wide_table"}
Ident(d) == [k \in 1..d |-> k]
Rev(d) == [k \in 1..d |-> d + 1 - k]
Rot(d) == [k \in 1..d |-> IF k = d THEN 1 ELSE k + 1]
\* two neighbours changed over, the others where they were
Swap(d, i) == [k \in 1..d |-> IF k = i THEN i + 1 ELSE IF k = i + 1 THEN i ELSE k]
OrdersOf(d) == {Ident(d), Rev(d), Rot(d)} \cup {Swap(d, i) : i \in 1..(d - 1)}
\* where the copula finds its column j: by name when it knows its names and the form carries some, else by position
Where(form, known, j) ==
  IF known /\ form.kind \in Labelled THEN CHOOSE k \in 1..Len(form.order) : form.order[k] = j ELSE j
\* the column of the copula's data that ends up at its coordinate j
Lands(form, known) == [j \in 1..Len(form.order) |-> form.order[Where(form, known, j)]]
=============================================================================
