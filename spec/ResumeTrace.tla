---------------------------- MODULE ResumeTrace ----------------------------
(* Streams of real runs: "ref" is an uninterrupted run; the "seg" events of  *)
(* the same case show the stream after each stop or kill of another run.     *)
EXTENDS Resume, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ref
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Is(frames, n) == Len(frames) = n /\ \A i \in 1 .. n : frames[i] = ref[i]
Others == <<box, hdr, step, y, bx, lastd, live>>
TRef == /\ IsEvent("ref") /\ Ev.rc = 0
        /\ LET ts == Times(Ev.dump, Ev.tmax) IN
           /\ Len(Ev.frames) = Len(ts)
           /\ \A i \in 1 .. Len(ts) : Ev.frames[i].t = ts[i] /\ (i > 1 => Ev.frames[i].step > Ev.frames[i - 1].step)
        /\ ref' = Ev.frames /\ dump' = Ev.dump /\ clamp' = Ev.clamp /\ disk' = <<>> /\ lives' = 0 /\ t' = 0 /\ tmax' = Ev.tmax
        /\ UNCHANGED Others
\* a process that ended by itself leaves the frames up to its end time (more, if the stream was already longer);
\* a killed one leaves what was there and possibly further frames of the schedule
TSeg == /\ IsEvent("seg")
        /\ LET want == Len(Times(dump, Ev.tmax))
               have == Len(disk)
               n == Len(Ev.frames)
           IN /\ IF Ev.killed THEN n >= have /\ n <= (IF want > have THEN want ELSE have) ELSE Ev.rc = 0 /\ n = (IF want > have THEN want ELSE have)
              /\ Is(Ev.frames, n)
        /\ disk' = Ev.frames /\ lives' = lives + 1
        /\ UNCHANGED <<dump, clamp, ref, t, tmax>> /\ UNCHANGED Others
TNext == TRef \/ TSeg
TInit == /\ l = 1 /\ ref = <<>> /\ dump = 0 /\ clamp = FALSE /\ box = 0 /\ disk = <<>> /\ hdr = 0 /\ live = "trace" /\ t = 0 /\ step = 0 /\ y = <<>>
         /\ bx = 0 /\ lastd = 0 /\ tmax = 0 /\ lives = 0
TSpec == TInit /\ [][TNext]_<<vars, l, ref>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
