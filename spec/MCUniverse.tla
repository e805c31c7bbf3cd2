----------------------------- MODULE MCUniverse -----------------------------
EXTENDS Universe, TLC, Json
CONSTANTS Counts, Sides, MaxLen
VARIABLES n, hist
Requests == {[n |-> c, s |-> <<x, y, z>>] : c \in Counts, x \in Sides, y \in Sides, z \in Sides}
Init == held = Nothing /\ count = 0 /\ box = 0 /\ n = 0 /\ hist = <<>>
Next == /\ n < MaxLen /\ n' = n + 1
        /\ \/ \E q \in Requests : Make(q) /\ hist' = Append(hist, [op |-> "make", q |-> q])
           \/ \E k \in {1, 200} : Other(k) /\ hist' = Append(hist, [op |-> "other", k |-> k])
           \/ Clear /\ hist' = Append(hist, [op |-> "clear"])
Spec == Init /\ [][Next]_<<vars, n, hist>>
View == <<vars, n>>
WholeBlocks == held.k = "made" => count % (2 * Block) = 0
Enough == held.k = "made" => count >= 2 * held.q.n /\ count < 2 * (held.q.n + Block)
BoxHolds == held.k = "made" => box >= 1 /\ \A k \in 1 .. 3 : box * Ticks > held.q.s[k] - Ticks
\* only the request counts
Function == held.k = "made" => count = Bodies(held.q.n) /\ box = Box(held.q.s)
Apart == \A q \in Requests : Centre(q.s, 2)[1] - Centre(q.s, 1)[1] = 2 * q.s[1]
\* histories of a bounded length, printed at their end
GPrint == n = MaxLen => PrintT("@@" \o ToJson(hist))
=============================================================================
