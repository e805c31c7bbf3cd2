------------------------------- MODULE Resume -------------------------------
(***************************************************************************)
(* A simulation that is stopped or killed and continued from its stream.   *)
(* Time is counted in twentieths of a step.  The bodies are abstracted to  *)
(* the history of steps and wrappings that produced them: the solver keeps *)
(* no data of its own between steps, so this is all the next step depends  *)
(* on.  disk is the stream: what a killed process leaves are its complete  *)
(* frames (Stream.tla shows that), with the box size in its header.        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences
DT == 20
Tol == 2
\* times of the frames of an uninterrupted run from time 0 to tmax (0 included)
RECURSIVE TimesFrom(_, _, _, _)
TimesFrom(t, lastd, dump, tmax) ==
  IF t >= tmax THEN <<>>
  ELSE LET n == t + DT IN
       IF n >= lastd + dump - Tol THEN <<n>> \o TimesFrom(n, n, dump, tmax) ELSE TimesFrom(n, lastd, dump, tmax)
Times(dump, tmax) == <<0>> \o TimesFrom(0, 0, dump, tmax)
\* the bodies after n steps of an uninterrupted run
Bodies(n, clamp, box) == [i \in 1 .. n |-> IF clamp THEN box ELSE 0]
Reference(dump, clamp, box, tmax) ==
  LET ts == Times(dump, tmax) IN [i \in 1 .. Len(ts) |-> [t |-> ts[i], step |-> ts[i] \div DT, y |-> Bodies(ts[i] \div DT, clamp, box)]]

VARIABLES dump, clamp, box,                  \* of the simulation
          disk, hdr,                         \* frames in the stream; box size in its header (0: no header)
          live, t, step, y, bx, lastd, tmax, \* the process
          lives                              \* processes so far
vars == <<dump, clamp, box, disk, hdr, live, t, step, y, bx, lastd, tmax, lives>>
CONSTANTS Dumps, Boxes, Ends, MaxLives
Init == /\ dump \in Dumps /\ clamp \in BOOLEAN /\ box \in Boxes /\ disk = <<>> /\ hdr = 0
        /\ live = "run" /\ t = 0 /\ step = 0 /\ y = <<>> /\ bx = box /\ lastd = 0 /\ tmax \in Ends /\ lives = 1
Frame == [t |-> t, step |-> step, y |-> y]
First == live = "run" /\ t = 0 /\ disk = <<>> /\ disk' = <<Frame>> /\ hdr' = bx
         /\ UNCHANGED <<dump, clamp, box, live, t, step, y, bx, lastd, tmax, lives>>
Step == /\ live = "run" /\ disk # <<>> /\ t < tmax
        /\ t' = t + DT /\ step' = step + 1 /\ y' = Append(y, IF clamp THEN bx ELSE 0)
        /\ live' = IF t + DT >= lastd + dump - Tol THEN "dump" ELSE "run"
        /\ UNCHANGED <<dump, clamp, box, disk, hdr, bx, lastd, tmax, lives>>
Dump == live = "dump" /\ disk' = Append(disk, Frame) /\ lastd' = t /\ live' = "run"
        /\ UNCHANGED <<dump, clamp, box, hdr, t, step, y, bx, tmax, lives>>
Finish == live = "run" /\ disk # <<>> /\ t >= tmax /\ live' = "done" /\ UNCHANGED <<dump, clamp, box, disk, hdr, t, step, y, bx, lastd, tmax, lives>>
Kill == live \in {"run", "dump"} /\ live' = "dead" /\ UNCHANGED <<dump, clamp, box, disk, hdr, t, step, y, bx, lastd, tmax, lives>>
\* continuing is claimed only from a frame past the start
Continue == /\ live \in {"done", "dead"} /\ Len(disk) > 1 /\ lives < MaxLives
            /\ LET f == disk[Len(disk)] IN t' = f.t /\ step' = f.step /\ y' = f.y /\ lastd' = f.t
            /\ bx' = hdr /\ tmax' \in Ends /\ lives' = lives + 1 /\ live' = "run"
            /\ UNCHANGED <<dump, clamp, box, disk, hdr>>
Next == First \/ Step \/ Dump \/ Finish \/ Kill \/ Continue
Spec == Init /\ [][Next]_vars
Far == CHOOSE m \in Ends : \A e \in Ends : e <= m
Whole == Reference(dump, clamp, box, Far)
Prefix == Len(disk) <= Len(Whole) /\ \A i \in 1 .. Len(disk) : disk[i] = Whole[i]
\* a process that ends normally leaves nothing less than the uninterrupted run to the same time
Complete == live = "done" => LET r == Reference(dump, clamp, box, tmax) IN Len(disk) >= Len(r) /\ SubSeq(disk, 1, Len(r)) = r
=============================================================================
