------------------------------ MODULE MCStream ------------------------------
\* Exhaustive exploration: two streams, a few frames, several part limits, crashes anywhere
EXTENDS Stream, TLC
CONSTANTS MaxFrames, MaxCrash, MaxOpen, Limits, Sizes
VARIABLES nfr, ncr, nop
vars == <<svars, nfr, ncr, nop>>

RunOf(nm) == IF disk[nm].hdr # <<>> /\ w.hdr THEN disk[nm].hdr[1].n ELSE 0

MCInit == SInit /\ nfr = 0 /\ ncr = 0 /\ nop = 0
MCNext ==
  \/ /\ nop < MaxOpen
     /\ \E nm \in Names, l \in Limits : OpenFresh(nm, l) \/ OpenAppend(nm, l)
     /\ nop' = nop + 1 /\ UNCHANGED <<nfr, ncr>>
  \/ Close /\ w # Closed /\ UNCHANGED <<nfr, ncr, nop>>
  \/ /\ nfr < MaxFrames
     /\ \E n \in Sizes :
          /\ w.hdr => n = disk[w.nm].hdr[1].n
          /\ Begin([fid |-> nfr + 1, step |-> nfr, time |-> 10 * nfr, n |-> n, box |-> n, run |-> n])
     /\ nfr' = nfr + 1 /\ UNCHANGED <<ncr, nop>>
  \/ Internal /\ UNCHANGED <<nfr, ncr, nop>>
  \/ Ack /\ UNCHANGED <<nfr, ncr, nop>>
  \/ ncr < MaxCrash /\ (Crash \/ Torn(1)) /\ ncr' = ncr + 1 /\ UNCHANGED <<nfr, nop>>
  \/ (\E nm \in Names : Recover(nm) /\ inflight[nm] # <<>>) /\ UNCHANGED <<nfr, ncr, nop>>
MCSpec == MCInit /\ [][MCNext]_vars
\* vacuity probes: these must be reachable (checked by the driver as violated invariants)
NeverRolls == \A nm \in Names : Len(disk[nm].parts) < 3
NeverTorn == \A nm \in Names : \A p \in 1 .. Len(disk[nm].parts) : Len(disk[nm].parts[p].cells) % 2 = 0 \/ w.st = "cellv"
=============================================================================
