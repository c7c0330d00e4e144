------------------------------ MODULE Trace_C26 ------------------------------
(* Recorded tables of the data set loaders against the shipped files.  A     *)
(* session knows the cells of each file (header, dates, numbers); a table    *)
(* must show them, or for returns the relative change from the row before.   *)
EXTENDS Replay

TInit(s) == [files |-> s.init.files, seen |-> <<>>]
TNext(st, ev) == IF ev.op = "table" /\ ev.bad = "" THEN [st EXCEPT !.seen = Append(@, ev.seen)] ELSE st

FileOf(st, set) == st.files[CHOOSE i \in 1..Len(st.files) : st.files[i].set = set]
\* expected number in row i, column j
Want(f, set, i, j) == IF set = "returns" THEN (f.rows[i + 1][j] // f.rows[i][j]) -- 1 ELSE f.rows[i][j]
TableFailing(st, ev) ==
  IF ev.bad # "" THEN {<<"loads", ev.bad>>}
  ELSE LET f == FileOf(st, IF ev.set = "returns" THEN "smi" ELSE ev.set)
           skip == IF ev.set = "returns" THEN 1 ELSE 0
           n == Len(f.rows) - skip
  IN (IF ev.cols = f.cols THEN {} ELSE {<<"columns_of_the_file", ToString(ev.cols)>>})
     \cup (IF ev.n = n THEN {} ELSE {<<"rows_of_the_file", "expected " \o ToString(n) \o " got " \o ToString(ev.n)>>})
     \cup (IF ev.n # n \/ Len(ev.cols) # Len(f.cols) THEN {} ELSE
           {<<"cells_of_the_file", ToString(<<ev.at[k], j>>) \o " expected " \o FShow(Want(f, ev.set, ev.at[k], j)) \o " got " \o FShow(ev.rows[k][j])>> :
              k \in {k \in 1..Len(ev.at) : \E j \in 1..Len(f.cols) : ~FClose(ev.rows[k][j], Want(f, ev.set, ev.at[k], j), Fl("1e-12"), Fl("1e-14"))}, j \in {1}})
     \cup (IF ev.n = n /\ f.dates # <<>> /\ (\E k \in 1..Len(ev.at) : ev.index[k] # f.dates[ev.at[k] + skip]) THEN {<<"indexed_by_date", ToString(ev.index)>>} ELSE {})
     \cup (IF ev.fresh THEN {} ELSE {<<"a_new_table_every_time", "">>})
TFailing(st, ev) ==
  CASE ev.op = "table" -> TableFailing(st, ev)
    [] ev.op = "spoil" -> {}
    [] ev.op = "others" -> IF ev.same THEN {} ELSE {<<"tables_do_not_share", ev.key>>}
==============================================================================
