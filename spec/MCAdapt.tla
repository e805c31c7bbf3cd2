------------------------------- MODULE MCAdapt -------------------------------
EXTENDS Adapt, Json, TLC
CONSTANTS Configs, Emitting
\* <<recursion, parts, length, minimum>>
Small == {<<0, 2, 8, 0>>, <<1, 2, 8, 0>>, <<2, 2, 8, 0>>, <<3, 2, 8, 0>>, <<3, 2, 8, 2>>, <<3, 2, 8, 4>>, <<3, 2, 8, 3>>, <<3, 2, 8, 8>>, <<2, 3, 27, 0>>, <<3, 3, 27, 3>>, <<1, 8, 64, 0>>, <<2, 1, 4, 0>>}
Gen == Small \cup {<<1, 4, 16, 0>>, <<2, 3, 27, 9>>, <<2, 3, 27, 8>>, <<4, 2, 16, 4>>, <<4, 2, 16, 3>>}
Init == \E c \in Configs : Start(c[1], c[2], c[3], c[4])
Next == \E e \in {"lo", "eq", "hi"} : Trial(e)
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Next)
Terminates == <>(stack = <<>>)
\* for generation, "lo" and "eq" alternate, and a verdict that makes no difference is drawn by position
GenNext == \E e \in {"lo", "hi"} : Trial(e)
GenSpec == Init /\ [][GenNext]_vars
Emit == stack = <<>> => PrintT("@@" \o ToJson([rec |-> rec, sub |-> sub, len |-> len, minlen |-> minlen, errs |-> log]))
==============================================================================
