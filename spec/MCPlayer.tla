------------------------------ MODULE MCPlayer ------------------------------
EXTENDS Player, TLC, Json
CONSTANTS Lasts, Times, MaxLen
VARIABLES n, hist
Buttons == {"start", "pause", "stop", "backward", "forward"}
Init == last \in Lasts /\ pos = 0 /\ shown = 0 /\ anim = "stopped" /\ t = 0 /\ n = 0 /\ hist = <<>>
Next == /\ n < MaxLen /\ n' = n + 1
        /\ \/ \E b \in Buttons : Press(b) /\ hist' = Append(hist, [op |-> b])
           \/ \E k \in {0, last \div 2, last} : Move(k) /\ hist' = Append(hist, [op |-> "move", k |-> k])
           \/ \E k \in {"right", "left", "home", "end"} : Key(k) /\ hist' = Append(hist, [op |-> "key", k |-> k])
           \/ \E d \in Times : Elapse(d) /\ hist' = Append(hist, [op |-> "elapse", d |-> d])
Spec == Init /\ [][Next]_<<pvars, n, hist>>
View == <<pvars, n>>
ShownIsNamed == shown = pos
Within == pos \in 0 .. last
TimeWithin == t \in 0 .. Duration
RunningOnTime == anim = "running" => t < Duration
Escape == CanStart \/ CanStop            \* never without a way on
Ends == [][anim = "running" /\ anim' = "stopped" => pos' \in {0, last}]_<<pvars, n, hist>>
Forwards == [][anim = "paused" => anim' = "paused" \/ t' \in {t, 0, Duration}]_<<pvars, n, hist>>
GPrint == n = MaxLen => PrintT("@@" \o ToJson([last |-> last, ops |-> hist]))
\* sequences worth replaying are those of which something runs
GSpec == Init /\ [][Next /\ (n = 0 => hist'[1].op = "start")]_<<pvars, n, hist>>
=============================================================================
