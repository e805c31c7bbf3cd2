--------------------------- MODULE StreamFailTrace ---------------------------
\* Calls of the real code with refused file operations (counted by the harness as "hits").
\* Only what the caller can see is compared: results, and what a reader finds.
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, acked, failed, broken, run
vars == <<l, st, acked, failed, broken, run>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Frame == [fid |-> Ev.fid, step |-> Ev.step, time |-> Ev.time]

TStart == IsEvent("start") /\ st' = "closed" /\ acked' = <<>> /\ failed' = {} /\ broken' = FALSE /\ run' = 0
\* a call fails exactly when one of its operations was refused (or the writer is broken already)
Outcome == \/ Ev.rc = 0 /\ Ev.hits = 0
           \/ Ev.rc # 0 /\ (Ev.hits > 0 \/ broken)
TOpen == /\ IsEvent("open") /\ (Ev.rc = 0) = (Ev.hits = 0)
         /\ IF Ev.rc = 0 THEN st' = "open" /\ broken' = FALSE ELSE st' = "broken" /\ broken' = TRUE
         /\ acked' = <<>> /\ failed' = {} /\ run' = 0
TAppend == /\ IsEvent("append") /\ (Ev.rc = 0) = (Ev.hits = 0)
           /\ IF Ev.rc = 0 THEN st' = "open" /\ broken' = FALSE ELSE st' = "broken" /\ broken' = TRUE
           /\ UNCHANGED <<acked, failed, run>>
TClose == IsEvent("close") /\ st' = "closed" /\ broken' = FALSE /\ UNCHANGED <<acked, failed, run>>
TWrite == /\ IsEvent("write") /\ Outcome
          /\ IF Ev.rc = 0
             THEN acked' = Append(acked, Frame) /\ UNCHANGED <<failed, broken>>
             ELSE acked' = acked /\ failed' = failed \cup {Frame} /\ broken' = TRUE
          /\ run' = IF run = 0 THEN Ev.run ELSE run
          /\ UNCHANGED st
\* fault-free look at the files: the acknowledged frames, in order, bit for bit; others only if they are whole failed frames
TLook == /\ IsEvent("look")
         /\ acked # <<>> =>
              /\ Ev.ok
              /\ SelectSeq(Ev.frames, LAMBDA x : x \notin failed) = acked
              /\ Ev.mass = run /\ Ev.col = run
         /\ UNCHANGED <<st, acked, failed, broken, run>>
\* reading with refused operations: a read that reports success has delivered every frame
TRead == IsEvent("faultyread") /\ (Ev.hits = 0 => Ev.rc = 0)
         /\ (Ev.rc = 0 => Ev.frames = acked)
         /\ UNCHANGED <<st, acked, failed, broken, run>>
\* a simulation run: fails exactly when a file operation was refused, and writes nothing after it
TRun == IsEvent("run") /\ (Ev.rc # 0) = (Ev.hits > 0) /\ (Ev.rc # 0 => Ev.after = 0) /\ UNCHANGED <<st, acked, failed, broken, run>>
\* saving a body table: success exactly when everything was stored, and then the file holds all of it
TSave == IsEvent("save") /\ Ev.good = (Ev.hits = 0) /\ (Ev.good => Ev.same) /\ UNCHANGED <<st, acked, failed, broken, run>>
\* loading a body table: refused reads are failures
TLoad == IsEvent("loadtable") /\ (Ev.hits = 0 => Ev.good) /\ (Ev.good => Ev.same) /\ UNCHANGED <<st, acked, failed, broken, run>>

TInit == l = 1 /\ st = "closed" /\ acked = <<>> /\ failed = {} /\ broken = FALSE /\ run = 0
TNext == TStart \/ TOpen \/ TAppend \/ TClose \/ TWrite \/ TLook \/ TRead \/ TRun \/ TSave \/ TLoad
TSpec == TInit /\ [][TNext]_vars
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
==============================================================================
