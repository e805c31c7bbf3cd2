----------------------------- MODULE StreamTrace -----------------------------
\* Is a recorded execution of the real writer and reader a behaviour of Stream?
EXTENDS Stream, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<svars, l>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

Busy == w.st \notin {"idle", "closed"}
ModelSizes(nm, last) == [p \in 1 .. last + 1 |-> disk[nm].parts[p].size]
SizesMatch(nm, last, sizes) == Len(sizes) >= last + 1 /\ SubSeq(sizes, 1, last + 1) = ModelSizes(nm, last)

TStart == IsEvent("start") /\ disk' = [nm \in Names |-> NoDisk] /\ w' = Closed
          /\ acked' = [nm \in Names |-> <<>>] /\ inflight' = [nm \in Names |-> <<>>]
TOpen == IsEvent("open") /\ Ev.rc = 0 /\ OpenFresh(Ev.nm, Ev.limit)
TAppend == IsEvent("append") /\ Ev.rc = 0 /\ OpenAppend(Ev.nm, Ev.limit)
TClose == IsEvent("close") /\ Close
TBegin == IsEvent("begin") /\ Begin([fid |-> Ev.fid, step |-> Ev.step, time |-> Ev.time, n |-> Ev.n, box |-> Ev.box, run |-> Ev.run])
TSilent == l <= Len(Trace) /\ Ev.e \in {"ack", "crash"} /\ Internal /\ l' = l
TAck == IsEvent("ack") /\ Ev.rc = 0 /\ Ack /\ SizesMatch(w.nm, w.part, Ev.sizes)
THole == IsEvent("hole") /\ Hole(Ev.nm, Ev.part, Ev.k)
TCrash == IsEvent("crash") /\ \/ IF w.st = "closed" THEN UNCHANGED svars ELSE Crash
                              \/ /\ Busy
                                 /\ w.part + 1 <= Len(Ev.sizes)
                                 /\ LET k == Ev.sizes[w.part + 1] - PartSize(disk[w.nm], w.part)
                                    IN  k > 0 /\ Torn(k)

\* what the reader reported is what the files of the model hold
Matches(nm) ==
  LET d == disk[nm] IN
    IF Loadable(d)
    THEN /\ Ev.ok
         /\ Ev.frames = Readable(d)
         /\ Ev.n = d.hdr[1].n /\ Ev.box = d.hdr[1].box
         /\ Ev.mass = d.aux[1].mass /\ Ev.col = d.aux[1].col
         /\ Ev.last = d.idx[Len(d.idx)].step /\ Ev.tmax = d.idx[Len(d.idx)].time
         /\ Ev.lastn = LastPart(d)
         /\ SizesMatch(nm, LastPart(d), Ev.sizes)
    ELSE ~Ev.ok
TReadback == IsEvent("readback") /\ Matches(Ev.nm) /\ UNCHANGED svars
TRecover == /\ IsEvent("recover") /\ Matches(Ev.nm)
            /\ IF Loadable(disk[Ev.nm]) THEN Recover(Ev.nm) ELSE UNCHANGED svars

TInit == SInit /\ l = 1
TNext == TStart \/ TOpen \/ TAppend \/ TClose \/ TBegin \/ TSilent \/ TAck \/ THole \/ TCrash \/ TReadback \/ TRecover
TSpec == TInit /\ [][TNext]_tvars
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
==============================================================================
