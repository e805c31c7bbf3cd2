------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The result stream of drons/nbody: one text index, numbered data parts,  *)
(* a mass and a colour file.  One writer process appends frames; it may be *)
(* killed between any two system calls.  One action per file operation of  *)
(* nbody_data_stream::write, in the order that makes the stream safe:      *)
(*   auxiliary files, part rollover, positions, velocities, index line.    *)
(*                                                                         *)
(* Sizes and offsets are counted in units of 8 bytes (one coordinate).  A  *)
(* frame of n bodies occupies two cells (positions, velocities) of 3n      *)
(* units; an index entry names part and offset, as on disk.                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Names          \* stream base names

VARIABLES disk,          \* disk[nm]: what the files of stream nm hold
          w,             \* the writer process
          acked,         \* acked[nm]: frames whose write was reported as successful
          inflight       \* inflight[nm]: <<>> or <<frame being written when the process died>>

svars == <<disk, w, acked, inflight>>

CellUnits(n) == 3 * n

NoDisk == [present |-> FALSE, hdr |-> <<>>, idx |-> <<>>, parts |-> <<>>, aux |-> <<>>]
Closed == [st |-> "closed", nm |-> "", limit |-> 0, part |-> 0, hdr |-> FALSE, cur |-> <<>>]

EmptyPart == [size |-> 0, cells |-> <<>>]
PartSize(d, p) == d.parts[p + 1].size

\* ------------------------------------------------------------ reading back
\* What a reader finds for index entry e: the frame id, or 0 when the bytes are not one whole frame
ContentAt(d, e, n) ==
  IF e.part + 1 > Len(d.parts) THEN 0
  ELSE LET p == d.parts[e.part + 1]
           At(o, k) == {c \in Range(p.cells) : c.off = o /\ c.kind = k}
           r == At(e.off, "r")
           v == At(e.off + CellUnits(n), "v")
       IN  IF \E c \in r, x \in v : c.fid = x.fid
           THEN (CHOOSE c \in r : \E x \in v : c.fid = x.fid).fid ELSE 0

Loadable(d) == d.present /\ d.hdr # <<>> /\ d.idx # <<>>

Readable(d) ==
  IF ~Loadable(d) THEN <<>>
  ELSE [i \in 1 .. Len(d.idx) |->
         [fid |-> ContentAt(d, d.idx[i], d.hdr[1].n), step |-> d.idx[i].step, time |-> d.idx[i].time]]

Seen(f) == [fid |-> f.fid, step |-> f.step, time |-> f.time]
SeenSeq(s) == [i \in 1 .. Len(s) |-> Seen(s[i])]

LastPart(d) == IF d.idx = <<>> THEN 0 ELSE d.idx[Len(d.idx)].part

\* ------------------------------------------------------------ the writer
\* Starting a stream anew empties the index and part 0; later parts of an older stream stay until reached
OpenFresh(nm, limit) ==
  /\ w.st \in {"closed", "idle"}
  /\ disk' = [disk EXCEPT ![nm] =
        [present |-> TRUE, hdr |-> <<>>, idx |-> <<>>, aux |-> @.aux,
         parts |-> IF @.parts = <<>> THEN <<EmptyPart>> ELSE [@.parts EXCEPT ![1] = EmptyPart]]]
  /\ w' = [st |-> "idle", nm |-> nm, limit |-> limit, part |-> 0, hdr |-> FALSE, cur |-> <<>>]
  /\ acked' = [acked EXCEPT ![nm] = <<>>]
  /\ inflight' = [inflight EXCEPT ![nm] = <<>>]

\* Continuing a stream that a reader has loaded: at the end of the part named by the last index entry
OpenAppend(nm, limit) ==
  /\ w.st \in {"closed", "idle"}
  /\ Loadable(disk[nm])
  /\ inflight[nm] = <<>>                        \* the stream was looked at (Recover) before
  /\ w' = [st |-> "idle", nm |-> nm, limit |-> limit, part |-> LastPart(disk[nm]), hdr |-> TRUE, cur |-> <<>>]
  /\ UNCHANGED <<disk, acked, inflight>>

Close == /\ w.st \in {"idle", "closed"}
         /\ w' = Closed
         /\ UNCHANGED <<disk, acked, inflight>>

Begin(f) == /\ w.st = "idle"
            /\ w' = [w EXCEPT !.st = "aux", !.cur = <<f>>]
            /\ UNCHANGED <<disk, acked, inflight>>

Fr == w.cur[1]

StepAux == /\ w.st = "aux"
           /\ disk' = IF w.hdr THEN disk ELSE [disk EXCEPT ![w.nm].aux = <<[mass |-> Fr.run, col |-> Fr.run]>>]
           /\ w' = [w EXCEPT !.st = "roll"]
           /\ UNCHANGED <<acked, inflight>>

NeedRoll == w.limit > 0 /\ PartSize(disk[w.nm], w.part) >= w.limit

SetPart(parts, k, v) == IF k <= Len(parts) THEN [parts EXCEPT ![k] = v] ELSE Append(parts, v)

StepRoll == /\ w.st = "roll"
            /\ IF NeedRoll
               THEN /\ disk' = [disk EXCEPT ![w.nm].parts = SetPart(@, w.part + 2, EmptyPart)]
                    /\ w' = [w EXCEPT !.st = "cellr", !.part = @ + 1]
               ELSE /\ disk' = disk
                    /\ w' = [w EXCEPT !.st = "cellr"]
            /\ UNCHANGED <<acked, inflight>>

AddCell(p, k) == [size |-> p.size + CellUnits(Fr.n),
                  cells |-> Append(p.cells, [off |-> p.size, fid |-> Fr.fid, kind |-> k])]

StepR == /\ w.st = "cellr"
         /\ disk' = [disk EXCEPT ![w.nm].parts[w.part + 1] = AddCell(@, "r")]
         /\ w' = [w EXCEPT !.st = "cellv"]
         /\ UNCHANGED <<acked, inflight>>

StepV == /\ w.st = "cellv"
         /\ disk' = [disk EXCEPT ![w.nm].parts[w.part + 1] = AddCell(@, "v")]
         /\ w' = [w EXCEPT !.st = "index"]
         /\ UNCHANGED <<acked, inflight>>

StepIdx == /\ w.st = "index"
           /\ disk' = [disk EXCEPT
                 ![w.nm].hdr = IF w.hdr THEN @ ELSE <<[n |-> Fr.n, box |-> Fr.box]>>,
                 ![w.nm].idx = Append(@, [step |-> Fr.step, time |-> Fr.time, part |-> w.part,
                                          off |-> PartSize(disk[w.nm], w.part) - 2 * CellUnits(Fr.n)])]
           /\ w' = [w EXCEPT !.st = "ack", !.hdr = TRUE]
           /\ UNCHANGED <<acked, inflight>>

Ack == /\ w.st = "ack"
       /\ acked' = [acked EXCEPT ![w.nm] = Append(@, Fr)]
       /\ w' = [w EXCEPT !.st = "idle", !.cur = <<>>]
       /\ UNCHANGED <<disk, inflight>>

Internal == StepAux \/ StepRoll \/ StepR \/ StepV \/ StepIdx

\* The process is killed in the middle of a data write: part of a cell has reached the file
Torn(k) == /\ w.st \in {"cellr", "cellv"}
           /\ k \in 1 .. CellUnits(Fr.n) - 1
           /\ disk' = [disk EXCEPT ![w.nm].parts[w.part + 1].size = @ + k]
           /\ inflight' = [inflight EXCEPT ![w.nm] = w.cur]
           /\ w' = Closed
           /\ UNCHANGED acked

\* Something outside makes the current part longer (a large file; keeps offsets growing beyond 32 bits)
Hole(nm, p, k) == /\ w.st = "closed"
                  /\ disk' = [disk EXCEPT ![nm].parts[p + 1].size = @ + k]
                  /\ UNCHANGED <<w, acked, inflight>>

\* The process is killed; what was in flight may or may not have reached the index
Crash == /\ w.st # "closed"
         /\ inflight' = IF w.cur = <<>> THEN inflight ELSE [inflight EXCEPT ![w.nm] = w.cur]
         /\ w' = Closed
         /\ UNCHANGED <<disk, acked>>

\* After a crash the user looks at the stream: what is readable is from now on what counts
Recover(nm) ==
  /\ w.st = "closed"
  /\ Loadable(disk[nm])
  /\ acked' = [acked EXCEPT ![nm] =
        IF Len(disk[nm].idx) > Len(@) /\ inflight[nm] # <<>> THEN @ \o inflight[nm] ELSE @]
  /\ inflight' = [inflight EXCEPT ![nm] = <<>>]
  /\ UNCHANGED <<disk, w>>

SInit == /\ disk = [nm \in Names |-> NoDisk]
         /\ w = Closed
         /\ acked = [nm \in Names |-> <<>>]
         /\ inflight = [nm \in Names |-> <<>>]

\* ------------------------------------------------------------ properties
\* C02: at every instant every acknowledged frame is readable, and at most the frame in flight besides
CurOf(nm) == IF w.st # "closed" /\ w.nm = nm THEN w.cur ELSE inflight[nm]

CrashSafe ==
  \A nm \in Names :
    LET r == Readable(disk[nm])
    IN  acked[nm] # <<>> =>
          /\ Loadable(disk[nm])
          /\ \/ r = SeenSeq(acked[nm])
             \/ CurOf(nm) # <<>> /\ r = SeenSeq(acked[nm] \o CurOf(nm))

\* C01: whenever the writer is at rest, reading back gives exactly what was acknowledged
RoundTrip ==
  \A nm \in Names :
    (w.st \in {"idle", "closed"} /\ inflight[nm] = <<>> /\ acked[nm] # <<>>) =>
       /\ Readable(disk[nm]) = SeenSeq(acked[nm])
       /\ disk[nm].hdr[1].n = acked[nm][1].n
       /\ disk[nm].hdr[1].box = acked[nm][1].box
       /\ disk[nm].aux[1].mass = acked[nm][1].run

\* Index entries never overlap and never point past the data of their part
IndexSane ==
  \A nm \in Names : Loadable(disk[nm]) =>
    LET d == disk[nm]  n == d.hdr[1].n
    IN \A i \in 1 .. Len(d.idx) :
         /\ d.idx[i].part < Len(d.parts)
         /\ d.idx[i].off + 2 * CellUnits(n) <= PartSize(d, d.idx[i].part)
         /\ \A j \in 1 .. i - 1 : \/ d.idx[j].part < d.idx[i].part
                                  \/ d.idx[j].part = d.idx[i].part /\ d.idx[j].off + 2 * CellUnits(n) <= d.idx[i].off

\* A step is only ever a new part when the current one is full
RollOnlyWhenFull ==
  [][ w'.st = "cellr" /\ w.st = "roll" /\ w'.part # w.part => w.limit > 0 /\ PartSize(disk[w.nm], w.part) >= w.limit ]_svars

AckedOnlyGrows ==
  [][ \A nm \in Names : IsPrefix(acked[nm], acked'[nm]) \/ (acked'[nm] = <<>> /\ w'.nm = nm /\ w'.st = "idle") ]_svars
=============================================================================
