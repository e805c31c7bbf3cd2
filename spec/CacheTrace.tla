----------------------------- MODULE CacheTrace -----------------------------
EXTENDS Cache, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
THistory == /\ IsEvent("history") /\ Ev.ok /\ rate' = Ev.rate /\ step' = 0 /\ v' = 0 /\ kept' = 0 /\ fresh' = 0 /\ hist' = <<>>
\* by: the versions that, taken as the kept part with everything else current, explain the measured accelerations
TCompute == /\ IsEvent("compute") /\ Ev.rates /\ Ev.v = v + 1
            /\ step' = Ev.step /\ rate' = rate /\ v' = v + 1 /\ fresh' = v + 1
            /\ kept' = IF Due(rate, Ev.step, kept) THEN v + 1 ELSE kept
            /\ hist' = hist
            /\ \E i \in 1 .. Len(Ev.by) : Ev.by[i] = kept'
TNext == THistory \/ TCompute
TInit == l = 1 /\ rate = 0 /\ step = 0 /\ v = 0 /\ kept = 0 /\ fresh = 0 /\ hist = <<>>
TSpec == TInit /\ [][TNext]_<<vars, l>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
