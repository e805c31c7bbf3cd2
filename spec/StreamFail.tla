----------------------------- MODULE StreamFail -----------------------------
(***************************************************************************)
(* Stream with an operating system that may refuse any file operation.     *)
(* A refused operation ends the call with a failure; nothing reported as   *)
(* written is ever lost, and a failed frame is readable only if complete.  *)
(***************************************************************************)
EXTENDS Stream
VARIABLES refused,     \* operations refused during the current call
          result,      \* of the last call: "ok", "failed" or "none"
          broken       \* a call on the open writer has failed: later calls may fail too

fvars == <<svars, refused, result, broken>>

FInit == SInit /\ refused = 0 /\ result = "none" /\ broken = FALSE

\* calls that the operating system lets through
FOpenFresh(nm, lim) == OpenFresh(nm, lim) /\ refused' = 0 /\ result' = "ok" /\ broken' = FALSE
FOpenAppend(nm, lim) == OpenAppend(nm, lim) /\ refused' = 0 /\ result' = "ok" /\ broken' = FALSE
FClose == Close /\ refused' = 0 /\ result' = "ok" /\ broken' = FALSE
FBegin(f) == Begin(f) /\ refused' = 0 /\ result' = "none" /\ UNCHANGED broken
FInternal == Internal /\ refused = 0 /\ UNCHANGED <<refused, result, broken>>
FAck == Ack /\ refused = 0 /\ result' = "ok" /\ UNCHANGED <<refused, broken>>

\* the operation in progress is refused, possibly after k units of a data write were stored
Refuse(k) ==
  /\ w.st \in {"aux", "roll", "cellr", "cellv", "index"} /\ refused = 0
  /\ refused' = 1
  /\ disk' = IF k > 0 /\ w.st \in {"cellr", "cellv"} THEN [disk EXCEPT ![w.nm].parts[w.part + 1].size = @ + k] ELSE disk
  /\ UNCHANGED <<w, acked, inflight, result, broken>>

ReportFailure ==
  /\ w.cur # <<>> /\ (refused > 0 \/ broken)
  /\ w' = [w EXCEPT !.st = "idle", !.cur = <<>>]
  /\ result' = "failed" /\ broken' = TRUE
  /\ UNCHANGED <<disk, acked, inflight, refused>>

\* ---------------------------------------------------------------- properties
NothingSwallowed == (w.cur = <<>> /\ result = "ok") => refused = 0
AckedReadable ==
  \A nm \in Names : acked[nm] # <<>> =>
     /\ Loadable(disk[nm])
     /\ SelectSeq(Readable(disk[nm]), LAMBDA x : \E i \in 1 .. Len(acked[nm]) : acked[nm][i].fid = x.fid) = SeenSeq(acked[nm])
     /\ \A i \in 1 .. Len(Readable(disk[nm])) : Readable(disk[nm])[i].fid # 0
=============================================================================
