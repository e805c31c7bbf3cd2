----------------------------- MODULE WrapTrace -----------------------------
EXTENDS Wrap, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
\* rows: per axis the coordinates of all bodies; keep: velocities, masses and the other buffers as before
TClamp == /\ IsEvent("clamp") /\ Ev.keep /\ Len(Ev.after) = Len(Ev.before)
          /\ \A k \in 1 .. Len(Ev.before) : Ev.after[k] = [i \in 1 .. Len(Ev.before[k]) |-> Wrapped(Ev.before[k][i], Ev.b)]
\* free bodies in a run with or without wrapping
TRun == /\ IsEvent("run") /\ Ev.rc = 0 /\ Ev.keep
        /\ Ev.after = [i \in 1 .. Len(Ev.before) |-> IF Ev.clamp THEN After(Ev.before[i], Ev.vel[i], Ev.b, Ev.steps) ELSE Ev.before[i] + Ev.steps * Ev.vel[i]]
TNext == (TClamp \/ TRun) /\ UNCHANGED vars
TInit == l = 1 /\ b = 0 /\ x = 0 /\ v = 0 /\ n = 0
TSpec == TInit /\ [][TNext]_<<vars, l>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
