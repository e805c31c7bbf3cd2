---------------------------- MODULE TablesTrace ----------------------------
EXTENDS Tables, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
\* a file read into an object that may hold other bodies; numbers scaled by the factor of the unit system named
TLoad == /\ IsEvent("load")
         /\ LET k == IF Ev.by = "initial" THEN Kind(Ev.name) ELSE Ev.by
                ok == k # "unknown" /\ k = Ev.f.kind /\ Ok(Ev.f)
            IN /\ Ev.ok = ok
               /\ ok => Ev.bodies = BodiesOf(Ev.f) /\ Ev.unit = (IF Ev.by = "zeno" THEN "g1" ELSE Unit(Ev.name))
\* bodies saved and loaded again
TRound == IsEvent("round") /\ Ev.saved /\ Ev.loaded /\ Ev.after = Ev.before
TNoSpace == IsEvent("save") /\ Ev.ok = Ev.can
TNext == (TLoad \/ TRound \/ TNoSpace) /\ UNCHANGED vars
TInit == l = 1 /\ file = 0 /\ pos = 0 /\ ph = 0 /\ got = 0 /\ m = 0 /\ x = 0 /\ st = 0
TSpec == TInit /\ [][TNext]_<<vars, l>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
