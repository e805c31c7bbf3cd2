------------------------------ MODULE MCAdams ------------------------------
(* Design of the derivative store: a ring of rank slots, slot n mod rank for  *)
(* step n since the start, against the ages the method prescribes.            *)
EXTENDS Adams, TLC
CONSTANTS MaxSteps
VARIABLES ring, clock, used, tag
\* ring[slot]: (epoch, step) of the derivative it holds; epoch counts resets
mcvars == <<vars, ring, clock, used, tag>>
Init == \E r \in 1 .. 5 : /\ rank = r /\ since = 0 /\ multi = FALSE /\ startlen = r + 1
                          /\ ring = [i \in 0 .. r - 1 |-> <<-1, -1>>] /\ clock = 0 /\ used = {} /\ tag = "new"
Slot(n) == n % rank
Put == ring' = [ring EXCEPT ![Slot(since)] = <<clock, since>>]
\* coefficient n goes to slot (rank + fnum - n) mod rank
Used == {<<n, ring'[(rank + Slot(since) - n) % rank]>> : n \in 0 .. rank - 1}
S1 == StartStep /\ Put /\ used' = {} /\ tag' = "start" /\ UNCHANGED clock
S2 == MultiStep /\ Put /\ used' = Used /\ tag' = "multi" /\ UNCHANGED clock
R == Reset /\ clock' = clock + 1 /\ tag' = "reset" /\ used' = {} /\ UNCHANGED ring
Next == (since < MaxSteps /\ (S1 \/ S2)) \/ (clock < 2 /\ R)
Spec == Init /\ [][Next]_mcvars
\* every age is taken once, at its own step, and never from before a reset
Ages == tag = "multi" => used = {<<n, <<clock, since - 1 - n>>>> : n \in 0 .. rank - 1}
Length == multi => since > startlen
=============================================================================
