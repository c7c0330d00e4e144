------------------------------ MODULE Trace_C01 ------------------------------
(* Recorded calls of the ranking functions against Ranks.tla.  An event     *)
(* carries its data as a sequence of columns.                               *)
EXTENDS Replay, Ranks

TInit(s) == 0
TNext(st, ev) == 0

\* rows looked at: all, or the ones an event with long columns names
Rows(ev) == IF Len(ev.probe) = 0 THEN 1..Len(ev.data[1]) ELSE {ev.probe[k] : k \in 1..Len(ev.probe)}
\* dense ranks of long columns: the number of distinct smaller values
RankOf(ev, c, i) == IF Len(ev.probe) > 0 /\ ev.ties = "dense" THEN 2 * Cardinality({ev.data[c][j] : j \in {j \in 1..Len(ev.data[c]) : FLt(ev.data[c][j], ev.data[c][i])}}) + 2
                    ELSE RRank2(ev.data[c], i, ev.ties)

\* value the specification gives to entry (i, c)
Expected(ev, c, i) ==
  IF ev.op = "rank" THEN FDiv(FInt(RankOf(ev, c, i)), FInt(2))
  ELSE FDiv(FDiv(FInt(RankOf(ev, c, i)), FInt(2)), FInt(Len(ev.data[c]) + 1))

\* position of entry (row i, column c) in the row-major result; for ranking
\* along axis 0 the "columns" of the event are the rows of the matrix
At(ev, c, i) ==
  LET nc == Len(ev.data) nr == Len(ev.data[1])
  IN IF ev.byrow THEN (c - 1) * nr + i ELSE (i - 1) * nc + c

ShapeOf(ev) ==
  LET nc == Len(ev.data) nr == Len(ev.data[1])
  IN IF ev.vec THEN <<nr>> ELSE IF ev.byrow THEN <<nc, nr>> ELSE <<nr, nc>>

TFailing(st, ev) ==
  IF ev.res.k \notin {"arr", "df"} THEN {<<"returns_ranks", "got " \o ev.res.k \o " " \o ev.res.e>>}
  ELSE IF ev.res.shape # ShapeOf(ev) THEN {<<"same_shape", ToString(ev.res.shape)>>}
  ELSE
    (IF ev.df /\ (ev.res.k # "df" \/ ev.res.cols # ev.cols \/ ev.res.idx # ev.idx)
       THEN {<<"keeps_labels", ev.res.k \o ToString(ev.res.cols)>>} ELSE {})
    \cup {<<"rank_value", "column " \o ToString(c) \o " row " \o ToString(i) \o " expected " \o FShow(Expected(ev, c, i))
              \o " got " \o FShow(ev.res.v[At(ev, c, i)])>> :
            <<c, i>> \in {p \in (1..Len(ev.data)) \X Rows(ev) :
                 ~FClose(ev.res.v[At(ev, p[1], p[2])], Expected(ev, p[1], p[2]), FParse("1e-12"), FParse("1e-13"))}}
==============================================================================
