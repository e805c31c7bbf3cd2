------------------------------ MODULE MCResume ------------------------------
EXTENDS Resume, Json, TLC
\* histories for the replay: how each process ends (at a time, or killed while writing its k-th file operation)
Kinds == {"stop", "kill"}
Segs(n) == UNION {[1 .. k -> [kind : Kinds, tmax : {47, 100, 160, 230}]] : k \in 1 .. n}
Sane(s) == \A i \in 1 .. Len(s) - 1 : s[i].tmax <= s[i + 1].tmax
Histories == {[dump |-> d, clamp |-> c, segs |-> s] : d \in Dumps, c \in BOOLEAN, s \in {x \in Segs(MaxLives) : Sane(x)}}
VARIABLE h
GenInit == /\ h \in Histories /\ dump = 1 /\ clamp = TRUE /\ box = 1 /\ disk = <<>> /\ hdr = 0 /\ live = "x" /\ t = 0 /\ step = 0 /\ y = 0 /\ bx = 0 /\ lastd = 0 /\ tmax = 0 /\ lives = 0
GenNext == UNCHANGED <<vars, h>>
GenSpec == GenInit /\ [][GenNext]_<<vars, h>>
Emit == PrintT("@@" \o ToJson(h))
=============================================================================
