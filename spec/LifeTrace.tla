----------------------------- MODULE LifeTrace -----------------------------
EXTENDS Life, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Set(s) == {s[i] : i \in 1 .. Len(s)}
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Once(s) == Cardinality(Set(s)) = Len(s)
TNext == \/ IsEvent("new") /\ Make
         \/ IsEvent("attach") /\ Attach
         \/ IsEvent("lend") /\ Lend(Set(Ev.ids))
         \/ IsEvent("take") /\ Once(Ev.ids) /\ Take(Set(Ev.ids))
         \/ IsEvent("give") /\ Once(Ev.ids) /\ Give(Set(Ev.ids))
         \/ IsEvent("use") /\ Use(Set(Ev.ids))
         \/ IsEvent("call") /\ Call(Ev.k)
         \/ IsEvent("round") /\ Round
         \/ IsEvent("end") /\ End
         \* amounts after repetitions: of the same work, or of the whole life
         \/ IsEvent("amounts") /\ UNCHANGED lvars /\ \A k \in 1 .. Len(Ev.v) : ~Grows(Ev.v[k])
         \* several buffers at once: all of them or none
         \/ IsEvent("several") /\ UNCHANGED lvars /\ Ev.got = (IF Ev.refused THEN 0 ELSE Ev.wanted) /\ Ev.held = Ev.got
         \* a program ends by itself: well if it could do its work, even if none was left
         \/ IsEvent("program") /\ UNCHANGED lvars /\ Ended(Ev.life, Ev.rc)
TInit == LInit /\ l = 1
TSpec == TInit /\ [][TNext]_<<lvars, l>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
