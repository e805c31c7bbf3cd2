------------------------------- MODULE Cache -------------------------------
(* Force data kept between computations.
   Every computation sees bodies at new places (version v = 1, 2, ...).  kept is the version from which the kept part
   stems (grouping of bodies into cells; far-field sums and neighbour lists), 0 when there is none.  fresh is the version
   of everything else (mass centres, boxes and radii; pull of the near bodies). *)
EXTENDS Integers, Sequences
CONSTANTS Rates, Steps, MaxLen
VARIABLES rate, step, v, kept, fresh, hist
vars == <<rate, step, v, kept, fresh, hist>>
Due(r, s, k) == r = 0 \/ k = 0 \/ s % r = 0
Init == /\ rate \in Rates /\ step \in Steps /\ v = 0 /\ kept = 0 /\ fresh = 0 /\ hist = <<>>
Compute == /\ v < MaxLen
           /\ v' = v + 1
           /\ kept' = IF Due(rate, step, kept) THEN v + 1 ELSE kept
           /\ fresh' = v + 1
           /\ hist' = Append(hist, <<step, kept'>>)
           /\ UNCHANGED <<rate, step>>
Move == /\ v > 0 /\ Len(hist) = v /\ hist[v][1] = step /\ \E s \in Steps : s > step /\ step' = s
        /\ UNCHANGED <<rate, v, kept, fresh, hist>>
Next == Compute \/ Move
Spec == Init /\ [][Next]_vars
\* nothing but the kept part is ever old
Current == fresh = v
\* the kept part was made at the last computation whose step number is a multiple of the rate, or at the first one
Wanted == IF v = 0 THEN 0
          ELSE LET D == {k \in 1 .. v : k = 1 \/ rate = 0 \/ hist[k][1] % rate = 0} IN CHOOSE k \in D : \A j \in D : j <= k
Renewed == kept = Wanted
\* rates zero and one keep nothing
Always == rate \in {0, 1} => kept = v
=============================================================================
