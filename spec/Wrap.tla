-------------------------------- MODULE Wrap --------------------------------
(* Wrapping into the box -b .. b, and runs of free bodies with wrapping:      *)
(* every step starts with the wrap and then moves the body by its velocity.   *)
EXTENDS Integers, Sequences
Wrapped(x, b) == IF x > b THEN x - 2 * b ELSE IF x < -b THEN x + 2 * b ELSE x
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE After(_, _, _, _)
After(x, v, b, n) == IF n = 0 THEN x ELSE After(Wrapped(x, b) + v, v, b, n - 1)
VARIABLES b, x, v, n        \* one coordinate
vars == <<b, x, v, n>>
Step == x' = Wrapped(x, b) + v /\ n' = n + 1 /\ UNCHANGED <<b, v>>
=============================================================================
