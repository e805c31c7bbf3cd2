------------------------------ MODULE Gravity ------------------------------
(* Direct summation of attractions, cut into blocks that several threads work on.
   A thread owns a block of target bodies and walks over all source blocks; cnt counts how often each ordered pair was
   added up.  Indices outside the bodies would be memory errors. *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS MaxN, MaxB, Threads
VARIABLES n, b, todo, own, cnt, bad
vars == <<n, b, todo, own, cnt, bad>>
Starts == {k * b : k \in 0 .. ((n - 1) \div b)}
Last(s) == IF s + b - 1 < n THEN s + b - 1 ELSE n - 1
Body == 0 .. n - 1
Init == /\ n \in 1 .. MaxN /\ b \in 1 .. MaxB
        /\ todo = {k * b : k \in 0 .. ((n - 1) \div b)}
        /\ own = [t \in Threads |-> <<>>]
        /\ cnt = [p \in (0 .. n - 1) \X (0 .. n - 1) |-> 0]
        /\ bad = FALSE
Take(t) == /\ own[t] = <<>> /\ \E s \in todo : todo' = todo \ {s} /\ own' = [own EXCEPT ![t] = <<s, 0>>]
           /\ UNCHANGED <<n, b, cnt, bad>>
Work(t) == /\ own[t] # <<>> /\ own[t][2] \in Starts
           /\ LET I == own[t][1] .. Last(own[t][1])   J == own[t][2] .. Last(own[t][2])
              IN /\ bad' = (bad \/ ~(I \subseteq Body /\ J \subseteq Body))
                 /\ cnt' = [p \in DOMAIN cnt |-> IF p[1] \in I /\ p[2] \in J /\ p[1] # p[2] THEN cnt[p] + 1 ELSE cnt[p]]
           /\ own' = [own EXCEPT ![t] = <<own[t][1], own[t][2] + b>>]
           /\ UNCHANGED <<n, b, todo>>
Done(t) == /\ own[t] # <<>> /\ own[t][2] \notin Starts /\ own' = [own EXCEPT ![t] = <<>>] /\ UNCHANGED <<n, b, todo, cnt, bad>>
Next == \E t \in Threads : Take(t) \/ Work(t) \/ Done(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == todo = {} /\ \A t \in Threads : own[t] = <<>>
InRange == ~bad
Once == /\ \A p \in DOMAIN cnt : cnt[p] <= 1
        /\ Finished => \A p \in DOMAIN cnt : cnt[p] = (IF p[1] = p[2] THEN 0 ELSE 1)
Terminates == <>Finished

(* The attraction: exact for bodies whose distance is 10^-ex times an integer vector, in units of the scale the harness
   divides by (r^3, or the limit to the power 3/2 below the minimum distance 10^-4).  In these units the acceleration of
   body i towards body j is mass_j times the vector from i to j, in both cases. *)
Pull(m, d) == [c \in 1 .. 3 |-> m * d[c]]
Minus(d) == [c \in 1 .. 3 |-> -d[c]]
=============================================================================
