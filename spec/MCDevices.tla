----------------------------- MODULE MCDevices -----------------------------
EXTENDS Devices, TLC, Json
VARIABLE sel
GInit == sel \in Selections /\ copy = 0 /\ want = 0 /\ ops = 0 /\ last = ""
GSpec == GInit /\ [][FALSE]_<<vars, sel>>
GPrint == PrintT("@@" \o ToJson([sel |-> sel, usable |-> Usable(sel)]))
MInit == Init /\ sel = 0
MSpec == MInit /\ [][Next /\ sel' = sel]_<<vars, sel>>
=============================================================================
