------------------------------ MODULE StreamGen ------------------------------
\* Behaviours of Stream at the level of calls, printed for replay into the real writer and reader
EXTENDS Stream, TLC, Json
CONSTANTS K, WithCrash
VARIABLES hist, nfr
gvars == <<svars, hist, nfr>>
Limits == {0, 1, 5, 6, 7, 12, 30}       \* in units of 8 bytes for one body; scaled by the driver

Rec(o) == hist' = Append(hist, o)
Busy == w.st \notin {"idle", "closed"}
GInit == SInit /\ hist = <<>> /\ nfr = 0
GNext ==
  \/ /\ ~Busy /\ Len(hist) < K
     /\ \/ \E nm \in Names, l \in Limits :
            OpenFresh(nm, l) /\ (w.st = "idle" => nfr > 0) /\ Rec([op |-> "open", nm |-> nm, limit |-> l]) /\ nfr' = nfr
        \/ \E nm \in Names, l \in Limits :
            OpenAppend(nm, l) /\ Rec([op |-> "append", nm |-> nm, limit |-> l]) /\ nfr' = nfr
        \/ w.st = "idle" /\ Close /\ Rec([op |-> "close"]) /\ nfr' = nfr
        \/ \E x \in 1 .. 12 :                  \* weight: most steps are frames
            Begin([fid |-> nfr + 1, step |-> nfr, time |-> nfr, n |-> 1, box |-> 1, run |-> 1])
            /\ nfr' = nfr + 1 /\ Rec([op |-> "write", fid |-> nfr + 1, nm |-> w.nm, fresh |-> ~w.hdr])
        \/ \E nm \in Names : Recover(nm) /\ inflight[nm] # <<>> /\ Rec([op |-> "recover", nm |-> nm]) /\ nfr' = nfr
  \/ Busy /\ (Internal \/ Ack) /\ UNCHANGED <<hist, nfr>>
  \/ WithCrash /\ Busy /\ Len(hist) < K /\ acked[w.nm] # <<>> /\ Crash /\ Rec([op |-> "crash", nm |-> w.nm, at |-> w.st]) /\ nfr' = nfr
GSpec == GInit /\ [][GNext]_gvars
Emit == (Len(hist) = K /\ ~Busy) => PrintT("@@" \o ToJson(hist))
==============================================================================
