---------------------------- MODULE PlayerTrace ----------------------------
EXTENDS Player, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Seen == /\ Ev.pos = pos' /\ Ev.shown = shown' /\ Ev.named = pos'
        /\ Ev.enabled = Enabled'
        /\ Ev.min = 0 /\ Ev.max = last' /\ Ev.stale = ""
TAct == /\ IsEvent("act")
        /\ CASE Ev.op = "open" -> Open(Ev.arg)
             [] Ev.op \in {"start", "pause", "stop", "backward", "forward"} -> Press(Ev.op)
             [] Ev.op = "move" -> Move(Ev.arg)
             [] Ev.op \in {"right", "left", "home", "end"} -> Key(Ev.op)
             [] Ev.op = "elapse" -> Elapse(Ev.arg)
             [] OTHER -> Leave
        /\ Seen
\* the user and the animation go on while frames are recorded
TDuring == /\ IsEvent("during")
           /\ CASE Ev.op = "elapse" -> Elapse(Ev.arg) [] Ev.op = "move" -> Move(Ev.arg) [] OTHER -> Press(Ev.op)
\* the images left by a recording; cancelled after frame c was drawn: a prefix with at least that frame
TRecord == /\ IsEvent("record") /\ Leave /\ ~Ev.strange
           /\ Ev.images = Images(Len(Ev.images))
           /\ Len(Ev.images) <= last + 1
           /\ IF Ev.how \in {"none", "bad", "noimage"} THEN Ev.images = <<>>
              ELSE IF Ev.cancel < 0 THEN Len(Ev.images) = last + 1
              ELSE Len(Ev.images) > Ev.cancel \/ Len(Ev.images) = last + 1
TInit == l = 1 /\ last = 0 /\ pos = 0 /\ shown = 0 /\ anim = "stopped" /\ t = 0
TSpec == TInit /\ [][TAct \/ TDuring \/ TRecord]_<<pvars, l>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
