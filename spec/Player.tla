------------------------------- MODULE Player -------------------------------
(* The player: the timeline position, the animation that drives it and the    *)
(* frame drawn. Times are in milliseconds of playing.                          *)
EXTENDS Integers, Sequences
Duration == 5000
VARIABLES last,                  \* the last frame of the stream
          pos,                   \* position of the timeline
          shown,                 \* the frame drawn
          anim,                  \* "stopped", "running" or "paused"
          t                      \* time of the animation
pvars == <<last, pos, shown, anim, t>>
\* positions the animation may give at a time: linear, a whole number reached only up to rounding
At(time) == {(last * time) \div Duration} \cup (IF time > 0 /\ time < Duration /\ (last * time) % Duration = 0 /\ last > 0 THEN {(last * time) \div Duration - 1} ELSE {})
CanStart == anim # "running"
CanPause == anim = "running"
CanStop == anim # "stopped"
Enabled == <<CanStart, CanPause, CanStop, TRUE, TRUE>>   \* start, pause, stop, backward, forward
Goto(k) == pos' = k /\ shown' = k
Open(n) == last' = n - 1 /\ pos' = 0 /\ shown' = 0 /\ anim' = "stopped" /\ t' = 0
Start == /\ CanStart /\ anim' = "running" /\ last' = last
         /\ IF anim = "stopped" THEN Goto(0) /\ t' = 0 ELSE UNCHANGED <<pos, shown, t>>
Pause == CanPause /\ anim' = "paused" /\ UNCHANGED <<last, pos, shown, t>>
Stop == CanStop /\ anim' = "stopped" /\ t' = 0 /\ Goto(0) /\ last' = last
Backward == t' = 0 /\ Goto(0) /\ UNCHANGED <<last, anim>>
Forward == t' = Duration /\ Goto(last) /\ anim' = "stopped" /\ last' = last
Clip(k) == IF k < 0 THEN 0 ELSE IF k > last THEN last ELSE k
Move(k) == Goto(Clip(k)) /\ UNCHANGED <<last, anim, t>>
Elapse(d) == /\ last' = last
             /\ IF anim # "running" THEN UNCHANGED <<pos, shown, anim, t>>
                ELSE IF t + d >= Duration THEN t' = Duration /\ anim' = "stopped" /\ Goto(last)
                ELSE t' = t + d /\ anim' = anim /\ \E k \in At(t + d) : Goto(k)
\* a button that is disabled does nothing
Press(b) == CASE b = "start" -> IF CanStart THEN Start ELSE UNCHANGED pvars
              [] b = "pause" -> IF CanPause THEN Pause ELSE UNCHANGED pvars
              [] b = "stop" -> IF CanStop THEN Stop ELSE UNCHANGED pvars
              [] b = "backward" -> Backward
              [] b = "forward" -> Forward
Key(k) == CASE k = "right" -> Move(pos + 1) [] k = "left" -> Move(pos - 1) [] k = "home" -> Move(0) [] k = "end" -> Move(last)
\* other controls, and recording, leave position, animation and frame alone
Leave == UNCHANGED pvars
\* what a recording leaves: the first m images, image n showing frame n
Images(m) == [i \in 1 .. m |-> i - 1]
=============================================================================
