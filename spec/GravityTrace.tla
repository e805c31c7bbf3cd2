---------------------------- MODULE GravityTrace ----------------------------
EXTENDS Gravity, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1 /\ UNCHANGED vars
\* the measured columns of the pair count
TPairs == IsEvent("pairs") /\ Ev.bad = <<>> /\ Ev.total = Ev.cols * (Ev.n - 1) /\ Ev.cols > 0
TKernel == IsEvent("kernel") /\ Ev.kept /\ Ev.ai = Pull(Ev.mj, Ev.d) /\ Ev.aj = Pull(Ev.mi, Minus(Ev.d))
\* worst: deviation from the sum of attractions, in rounding units of the sum of their sizes
TSum == IsEvent("sum") /\ Ev.rounds = 3 /\ Ev.rates /\ Ev.kept /\ Ev.worst >= 0 /\ Ev.worst <= 4 * (Ev.n + 8)
TIdentity == IsEvent("identity") /\ Ev.same
TNext == TPairs \/ TKernel \/ TSum \/ TIdentity
TInit == l = 1 /\ n = 1 /\ b = 1 /\ todo = {} /\ own = <<>> /\ cnt = <<>> /\ bad = FALSE
TSpec == TInit /\ [][TNext]_<<vars, l>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
