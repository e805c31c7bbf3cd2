-------------------------------- MODULE Stats --------------------------------
(* Conservation statistics.  s: the bodies of the data object, e: those held  *)
(* by the engine; list: the quantities checked (P impulse, L angular          *)
(* momentum, V mass centre, E energy); ref: their values at the first         *)
(* computation, last: at the latest one they were on the list for.            *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Total(_, _), Nothing(_)     \* Total(q, bodies); Nothing(q): the value of a quantity never computed
Q == {"P", "L", "V", "E"}
VARIABLES s, e, list, first, ref, last
vars == <<s, e, list, first, ref, last>>
Fresh == first = TRUE /\ ref = [q \in Q |-> Nothing(q)] /\ last = [q \in Q |-> Nothing(q)]
SetList(x) == list' = x /\ UNCHANGED <<s, e, first, ref, last>>
SetBodies(x) == s' = x /\ UNCHANGED <<e, list, first, ref, last>>
EngineMoves(x) == e' = x /\ UNCHANGED <<s, list, first, ref, last>>
Compute(withEngine) ==
    LET now == IF withEngine THEN e ELSE s IN
    /\ s' = now
    /\ ref' = IF first THEN [q \in Q |-> IF q \in list THEN Total(q, now) ELSE Nothing(q)] ELSE ref
    /\ last' = [q \in Q |-> IF q \in list THEN Total(q, now) ELSE last[q]]
    /\ first' = FALSE /\ UNCHANGED <<e, list>>
=============================================================================
