---------------------------- MODULE CopulaTable ----------------------------
(* Parameter configurations explored by the design models; numbers are      *)
(* decimal strings so that the replayed code gets exactly the same doubles. *)
EXTENDS Copulas

Conf(f, d, p) == [fam |-> f, d |-> d, par |-> p]
Table ==
  [k \in 1..3 |-> Conf("indep", <<2, 3, 5>>[k], <<>>)]
  \o MapSeq(<<"-0.9", "-0.5", "-0.1", "0", "0.01", "0.5", "2", "8", "20", "100">>, LAMBDA t : Conf("clayton", 2, <<t>>))
  \o MapSeq(<<"0", "0.3", "2", "10", "60">>, LAMBDA t : Conf("clayton", 3, <<t>>))
  \o <<Conf("clayton", 4, <<"1.5">>)>>
  \o MapSeq(<<"-100", "-40", "-20", "-5", "-0.5", "-0.001", "0", "0.001", "0.5", "5", "20", "100">>, LAMBDA t : Conf("frank", 2, <<t>>))
  \o MapSeq(<<"0", "0.5", "5", "18", "60">>, LAMBDA t : Conf("frank", 3, <<t>>))
  \o <<Conf("frank", 4, <<"3">>)>>
  \o MapSeq(<<"1", "1.2", "3", "15", "100">>, LAMBDA t : Conf("gumbel", 2, <<t>>))
  \o MapSeq(<<"1", "1.5", "6", "60">>, LAMBDA t : Conf("gumbel", 3, <<t>>))
  \o <<Conf("gumbel", 4, <<"2.5">>)>>
  \o MapSeq(<<"-0.9", "-0.3", "0", "0.5", "0.95">>, LAMBDA t : Conf("gaussian", 2, <<t>>))
  \o <<Conf("gaussian", 3, <<"0.5", "-0.2", "0.3">>), Conf("gaussian", 3, <<"0", "0", "0">>),
       Conf("gaussian", 3, <<"0.8", "0.6", "0.4">>), Conf("gaussian", 3, <<"-0.3", "-0.4", "0.2">>)>>
Cop(k) == [fam |-> Table[k].fam, d |-> Table[k].d, par |-> MapSeq(Table[k].par, Fl)]
=============================================================================
