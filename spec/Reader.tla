------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* nbody_data_stream_reader: what a sequence of load, close, seek and read *)
(* calls returns.  Streams[nm] are the frames on disk; a stream that       *)
(* cannot be loaded has none.  pos is the frame the next read delivers     *)
(* (0: none, i.e. nothing loaded or the last frame was delivered).         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences
CONSTANTS Streams,      \* nm -> [n, box, run, frames: Seq([fid, step, time]), lastn]
          Dests         \* d -> number of bodies of destination d
VARIABLES loaded,       \* "" or the name of the loaded stream
          pos, dst, res
rvars == <<loaded, pos, dst, res>>

S == Streams[loaded]
NF == IF loaded = "" THEN 0 ELSE Len(S.frames)
Nothing == [fid |-> 0, step |-> "", time |-> "", run |-> 0, col |-> 0, box |-> 0]

RInit == /\ loaded = "" /\ pos = 0 /\ res = 0
         /\ dst = [d \in DOMAIN Dests |-> Nothing]

Load(nm) ==
  IF Streams[nm].frames = <<>>
  THEN loaded' = "" /\ pos' = 0 /\ res' = -1 /\ dst' = dst
  ELSE loaded' = nm /\ pos' = 1 /\ res' = 0 /\ dst' = dst

CloseR == loaded' = "" /\ pos' = 0 /\ res' = 0 /\ dst' = dst

\* frames are numbered from 0 for the user
Seek(k) ==
  IF k < NF THEN pos' = k + 1 /\ res' = 0 /\ UNCHANGED <<loaded, dst>>
            ELSE res' = -1 /\ UNCHANGED <<loaded, pos, dst>>

Read(d) ==
  IF loaded # "" /\ pos # 0 /\ Dests[d] = S.n
  THEN /\ dst' = [dst EXCEPT ![d] = [fid |-> S.frames[pos].fid, step |-> S.frames[pos].step, time |-> S.frames[pos].time,
                                     run |-> S.run, col |-> S.run, box |-> S.box]]
       /\ pos' = IF pos < NF THEN pos + 1 ELSE 0
       /\ res' = 0 /\ loaded' = loaded
  ELSE res' = -1 /\ UNCHANGED <<loaded, pos, dst>>

ReadNull == res' = -1 /\ UNCHANGED <<loaded, pos, dst>>

\* what the reader reports about the stream
Reported == IF loaded = "" THEN [fc |-> 0, last |-> "0", tmax |-> "0", bc |-> 0, box |-> 0, lastn |-> 0]
            ELSE [fc |-> NF, last |-> S.frames[NF].step, tmax |-> S.frames[NF].time, bc |-> S.n, box |-> S.box, lastn |-> S.lastn]

\* ---------------------------------------------------------------- properties
TypeOK == /\ loaded = "" => pos = 0
          /\ pos <= NF
\* consecutive reads give consecutive frames; a read after seek(k) gives frame k
ReadsInOrder == [][ \A d \in DOMAIN Dests : dst'[d] # dst[d] =>
                      loaded # "" /\ dst'[d].fid = S.frames[pos].fid /\ dst'[d].run = S.run /\ pos' \in {pos + 1, 0} ]_rvars
\* only reads change a destination, failed calls change nothing
FailuresHarmless == [][ res' = -1 => dst' = dst /\ (loaded' = loaded => pos' = pos) ]_rvars
=============================================================================
