------------------------------- MODULE MCWrap -------------------------------
EXTENDS Wrap, TLC, Json
CONSTANTS MaxB, MaxN
VARIABLE x0
Init == b \in 1 .. MaxB /\ x \in -4 * b .. 4 * b /\ v \in -2 * b + 1 .. 2 * b - 1 /\ n = 0 /\ x0 = x
Spec == Init /\ [][n < MaxN /\ Step /\ x0' = x0]_<<vars, x0>>
Inside == Abs(x) <= b => Wrapped(x, b) = x
Enters == Abs(x) <= 3 * b => Abs(Wrapped(x, b)) <= b
Periodic == (Wrapped(x, b) - x) % (2 * b) = 0
Nearer == Abs(x) > b => Abs(Wrapped(x, b)) < Abs(x) \/ b = 0
Kept == Abs(x0) <= 3 * b /\ n > 0 => Abs(x) <= b + Abs(v)
Same == x = After(x0, v, b, n)
\* every kind of place: beyond, at and inside each border
GPrint == PrintT("@@" \o ToJson([b |-> b, x |-> x, v |-> v, y |-> Wrapped(x, b)]))
=============================================================================
