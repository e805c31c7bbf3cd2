---------------------------- MODULE MCStreamFail ----------------------------
EXTENDS StreamFail, TLC
CONSTANTS MaxFrames, MaxRefuse, MaxOpen
VARIABLES nfr, nre, nop
MCInit == FInit /\ nfr = 0 /\ nre = 0 /\ nop = 0
MCNext ==
  \/ nop < MaxOpen /\ (\E nm \in Names, lm \in {0, 1, 6} : FOpenFresh(nm, lm) \/ FOpenAppend(nm, lm)) /\ nop' = nop + 1 /\ UNCHANGED <<nfr, nre>>
  \/ w # Closed /\ FClose /\ UNCHANGED <<nfr, nre, nop>>
  \/ /\ nfr < MaxFrames
     /\ FBegin([fid |-> nfr + 1, step |-> nfr, time |-> nfr, n |-> 1, box |-> 1, run |-> 1])
     /\ nfr' = nfr + 1 /\ UNCHANGED <<nre, nop>>
  \/ FInternal /\ UNCHANGED <<nfr, nre, nop>>
  \/ FAck /\ UNCHANGED <<nfr, nre, nop>>
  \/ nre < MaxRefuse /\ (\E k \in {0, 1} : Refuse(k)) /\ nre' = nre + 1 /\ UNCHANGED <<nfr, nop>>
  \/ ReportFailure /\ UNCHANGED <<nfr, nre, nop>>
MCSpec == MCInit /\ [][MCNext]_<<fvars, nfr, nre, nop>>
=============================================================================
