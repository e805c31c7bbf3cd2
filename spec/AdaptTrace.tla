----------------------------- MODULE AdaptTrace -----------------------------
(* Recorded steps of embedded and extrapolating solvers under scripted error estimates. *)
EXTENDS Adapt, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
AccNumbers == [i \in 1 .. Len(acc) |-> acc[i].n]
TBegin == /\ IsEvent("begin") /\ stack = <<>>
          /\ rec' = Ev.rec /\ sub' = Ev.sub /\ len' = Ev.len /\ minlen' = Ev.minlen
          /\ stack' = <<[len |-> Ev.len, left |-> 1]>> /\ pos' = 0 /\ acc' = <<>> /\ trials' = 0 /\ log' = <<>>
\* a trial starts at the end of the accepted ones, from the state they led to (base: their numbers), spans its own interval,
\* and its estimate is made from its own derivatives
TTrial == /\ IsEvent("trial") /\ stack # <<>>
          /\ Ev.at = pos /\ Ev.len = Top.len /\ Ev.base = AccNumbers /\ (Ev.estimate = "right" \/ (Ev.estimate = "none" /\ ~CanDivide))
          /\ Trial(Ev.err)
TEnd == /\ IsEvent("end") /\ stack = <<>>
        /\ Ev.y = AccNumbers /\ Ev.steps = 1 /\ Ev.timeok /\ Ev.trials = trials
        /\ UNCHANGED vars
\* every level starts from the unmodified state, and the result is the extrapolation of the levels up to the last one used
TBs == /\ IsEvent("bs") /\ stack = <<>>
       /\ Ev.level = StopLevel(Ev.max, Ev.errs) /\ Ev.result = Ev.level /\ Ev.fresh /\ Ev.timeok
       /\ UNCHANGED vars
TNext == TBegin \/ TTrial \/ TEnd \/ TBs
TInit == /\ l = 1 /\ rec = 0 /\ sub = 1 /\ len = 0 /\ minlen = 0 /\ stack = <<>> /\ pos = 0 /\ acc = <<>> /\ trials = 0 /\ log = <<>>
TSpec == TInit /\ [][TNext]_<<vars, l>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
