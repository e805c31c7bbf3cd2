------------------------------ MODULE ReaderGen ------------------------------
EXTENDS Reader, ReaderData, Json
CONSTANTS K
VARIABLE hist
Good == {"a", "b", "c", "u", "big"}
Fit == {d \in DOMAIN Dests : loaded # "" /\ Dests[d] = S.n}
Rec(o) == hist' = Append(hist, o)
GInit == RInit /\ hist = <<>>
GNext == Len(hist) < K /\
  \/ \E nm \in Good : Load(nm) /\ Rec([op |-> "load", nm |-> nm])
  \/ \E nm \in DOMAIN Streams \ Good : loaded # "" /\ Load(nm) /\ Rec([op |-> "load", nm |-> nm])
  \/ CloseR /\ Rec([op |-> "close"])
  \/ \E k \in 0 .. 6 : Seek(k) /\ Rec([op |-> "seek", k |-> k])
  \/ loaded # "" /\ \E w \in 1 .. 3 : Seek(NF - 1) /\ Rec([op |-> "seek", k |-> NF - 1])
  \/ \E w \in 1 .. 7, d \in Fit : Read(d) /\ Rec([op |-> "read", d |-> d])
  \/ \E d \in {"e", "r"} : Read(d) /\ Rec([op |-> "read", d |-> d])
  \/ ReadNull /\ Rec([op |-> "readnull"])
GSpec == GInit /\ [][GNext]_<<rvars, hist>>
Emit == Len(hist) = K => PrintT("@@" \o ToJson(hist))
==============================================================================
