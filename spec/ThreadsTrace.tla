--------------------------- MODULE ThreadsTrace ----------------------------
(* Recorded computations: each key names one computation; however it was      *)
(* scheduled, its outcome is the same and no accesses were left unordered.     *)
(* Where the scheduling events were kept, they are those Omp allows.           *)
EXTENDS Omp, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen
Ev == Trace[l]
Is(x) == l <= Len(Trace) /\ Trace[l].e = x /\ l' = l + 1
Kept == UNCHANGED seen
TCase == /\ Is("case") /\ size = 0 /\ Ev.races = 0
         /\ IF Ev.key \in DOMAIN seen THEN Ev.digest = seen[Ev.key] /\ UNCHANGED seen ELSE seen' = (Ev.key :> Ev.digest) @@ seen
         /\ UNCHANGED omp
TNext == \/ TCase
         \/ Is("fork") /\ Fork(Ev.t) /\ Kept
         \/ Is("spawn") /\ Spawn(Ev.t, Ev.k, Ev.p) /\ Kept
         \/ Is("start") /\ Start(Ev.t, Ev.k) /\ Kept
         \/ Is("end") /\ End(Ev.t, Ev.k) /\ Kept
         \/ Is("wait") /\ Wait(Ev.t, Ev.k) /\ Kept
         \/ Is("resume") /\ Resume(Ev.t, Ev.k) /\ Kept
         \/ Is("arrive") /\ Arrive(Ev.t, Ev.k) /\ Kept
         \/ Is("open") /\ Open /\ Kept
         \/ Is("done") /\ Leave(Ev.t, Ev.k) /\ Kept
         \/ Is("single") /\ Single(Ev.t, Ev.k, Ev.s) /\ Kept
         \/ Is("chunk") /\ Chunk(Ev.t, Ev.k, Ev.s, Ev.p) /\ Kept
         \/ Is("join") /\ Join /\ Kept
TInit == l = 1 /\ seen = <<>> /\ Idle
TSpec == TInit /\ [][TNext]_<<l, seen, omp>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
