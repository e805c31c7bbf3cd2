------------------------------ MODULE Universe ------------------------------
(* The generator of two galaxies. A request is a star count and three box     *)
(* sides; what it makes depends on the request alone, whatever the set of     *)
(* bodies held before. Quantities are whole numbers of the units named.       *)
EXTENDS Integers, Sequences, FiniteSets
Block == 64                      \* galaxies are filled up to whole blocks
Ticks == 64                      \* box sides are in 1/64
RoundUp(n) == ((n + Block - 1) \div Block) * Block
GalaxyCount(n) == RoundUp(n)
Bodies(n) == 2 * RoundUp(n)
Max(S) == CHOOSE m \in S : \A k \in S : k <= m
\* the largest side in whole units, at least one
Box(s) == Max({1} \cup {s[k] \div Ticks : k \in 1 .. 3})
\* centre of galaxy g (1 or 2) in half ticks: one half side to the left and right of the middle
Centre(s, g) == <<IF g = 1 THEN 0 ELSE 2 * s[1], s[2], s[3]>>
TotalMass == 1000                \* per galaxy
HolePermille == 999              \* of which the black hole in the centre has this share

VARIABLES held,                  \* what the set of bodies holds: a request, "other" bodies, or nothing
          count, box
vars == <<held, count, box>>
Nothing == [k |-> "nothing"]
Made(q) == [k |-> "made", q |-> q]
Make(q) == held' = Made(q) /\ count' = Bodies(q.n) /\ box' = Box(q.s)
\* anything done to the bodies in between
Other(n) == held' = [k |-> "other"] /\ count' = n /\ UNCHANGED box
Clear == held' = Nothing /\ count' = 0 /\ UNCHANGED box
=============================================================================
