----------------------------- MODULE ReaderTrace -----------------------------
EXTENDS Reader, ReaderData, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
\* after every call: result, everything the reader reports, and every destination
Observed ==
  /\ Ev.rc = res'
  /\ [fc |-> Ev.fc, last |-> Ev.last, tmax |-> Ev.tmax, bc |-> Ev.bc, box |-> Ev.box, lastn |-> Ev.lastn] = Reported'
  /\ \A d \in DOMAIN Dests : dst'[d] = Ev.dst[d]
  /\ pos' # 0 => Ev.cur = pos' - 1
TStart == IsEvent("start") /\ loaded' = "" /\ pos' = 0 /\ res' = 0 /\ dst' = [d \in DOMAIN Dests |-> Nothing]
TNext == \/ TStart
         \/ IsEvent("load") /\ Load(Ev.nm) /\ Observed
         \/ IsEvent("close") /\ CloseR /\ Observed
         \/ IsEvent("seek") /\ Seek(Ev.k) /\ Observed
         \/ IsEvent("read") /\ Read(Ev.d) /\ Observed
         \/ IsEvent("readnull") /\ ReadNull /\ Observed
TSpec == RInit /\ l = 1 /\ [][TNext]_<<rvars, l>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
==============================================================================
