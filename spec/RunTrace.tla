------------------------------ MODULE RunTrace ------------------------------
EXTENDS Run, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
\* the bodies carry the number of the step they belong to; stat is the step the last statistics saw
Q == [t0 |-> Ev.t0, tmax |-> Ev.tmax, dump |-> Ev.dump, chk |-> Ev.chk, stream |-> Ev.stream, visitors |-> Ev.visitors, clamp |-> Ev.clamp, failat |-> Ev.failat]
TBegin == /\ IsEvent("begin") /\ result \in {"none", "ok", "failed"}
          /\ p' = Q /\ t' = Q.t0 /\ step' = Ev.step /\ lastd' = Q.t0 /\ lastc' = Q.t0 /\ vis' = 0 /\ nframes' = 0
          /\ result' = "running" /\ log' = <<>>
          /\ pc' = IF Q.stream /\ Q.dump > 0 /\ Q.t0 <= 0 THEN "first" ELSE "head"
Sees(s) == Ev.body = s /\ Ev.step = s
TNext == \/ TBegin
         \/ IsEvent("dump") /\ (First \/ Dump) /\ Sees(step)
         \/ IsEvent("clamp") /\ Clamp /\ Ev.good
         \/ IsEvent("advance") /\ Advance /\ Ev.dt = DT
         \/ IsEvent("visit") /\ Visit(Ev.v) /\ Sees(step) /\ Ev.stat = step
         \/ (pc \in {"check", "check-dump"} /\ Checked /\ l' = l)
         \/ (pc = "head" /\ Finish /\ l <= Len(Trace) /\ Ev.e = "end" /\ l' = l)
         \/ IsEvent("end") /\ pc = "end" /\ (Ev.rc = 0) = (result = "ok") /\ Ev.step = step
            /\ (\E i \in 1 .. Len(log) : log[i].k = "c") = Ev.checked
            /\ UNCHANGED vars
TInit == /\ p = [t0 |-> 0, tmax |-> 0, dump |-> 0, chk |-> 0, stream |-> FALSE, visitors |-> 0, clamp |-> FALSE, failat |-> 0]
         /\ pc = "end" /\ t = 0 /\ step = 0 /\ lastd = 0 /\ lastc = 0 /\ vis = 0 /\ nframes = 0 /\ result = "none" /\ log = <<>> /\ l = 1
TSpec == TInit /\ [][TNext]_<<vars, l>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
