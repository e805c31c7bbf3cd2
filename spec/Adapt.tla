-------------------------------- MODULE Adapt --------------------------------
(***************************************************************************)
(* Step control.  An embedded Runge-Kutta step of length len (in units of  *)
(* the smallest sub-interval) is tried; a trial whose error estimate is    *)
(* above the threshold is replaced by sub equal parts unless the recursion *)
(* limit is reached or the trial is not longer than the minimum step.      *)
(* An extrapolating step goes through levels until the estimate is below   *)
(* the threshold (third level at the earliest) or the levels run out.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences
VARIABLES rec, sub, len, minlen,     \* settings
          stack,                     \* remaining intervals: <<[len, left]>>, innermost last; level = Len(stack) - 1
          pos, acc, trials, log      \* where the next trial starts; accepted trials; number of trials; history of verdicts
vars == <<rec, sub, len, minlen, stack, pos, acc, trials, log>>
Top == stack[Len(stack)]
Level == Len(stack) - 1
CanDivide == Level < rec /\ Top.len > minlen
RECURSIVE Unwind(_)
\* one interval of the innermost frame is covered; finished frames end, and with them the interval they replaced
Unwind(s) == IF s = <<>> THEN <<>>
             ELSE LET t == s[Len(s)] IN IF t.left > 1 THEN [s EXCEPT ![Len(s)] = [t EXCEPT !.left = @ - 1]]
                                        ELSE Unwind(SubSeq(s, 1, Len(s) - 1))
Start(r, m, n, mn) == /\ rec = r /\ sub = m /\ len = n /\ minlen = mn /\ stack = <<[len |-> n, left |-> 1]>>
                      /\ pos = 0 /\ acc = <<>> /\ trials = 0 /\ log = <<>>
\* verdict of the error estimate: "lo" below, "eq" equal to, "hi" above the threshold
Trial(err) ==
  /\ stack # <<>>
  /\ trials' = trials + 1
  /\ log' = Append(log, err)
  /\ IF err = "hi" /\ CanDivide
     THEN /\ stack' = Append(stack, [len |-> Top.len \div sub, left |-> sub])
          /\ UNCHANGED <<pos, acc>>
     ELSE /\ stack' = Unwind(stack)
          /\ pos' = pos + Top.len
          /\ acc' = Append(acc, [n |-> trials + 1, at |-> pos, len |-> Top.len, err |-> err, lev |-> Level])
  /\ UNCHANGED <<rec, sub, len, minlen>>
\* the accepted intervals cover the step once, in order
Tiles == /\ pos = IF acc = <<>> THEN 0 ELSE acc[Len(acc)].at + acc[Len(acc)].len
         /\ \A i \in 1 .. Len(acc) : acc[i].at = IF i = 1 THEN 0 ELSE acc[i - 1].at + acc[i - 1].len
         /\ stack = <<>> => pos = len
         /\ pos <= len
OnlyGood == \A i \in 1 .. Len(acc) : acc[i].err # "hi" \/ acc[i].lev = rec \/ acc[i].len <= minlen
\* level at which an extrapolating step stops, given the verdicts from the third level on
StopLevel(max, errs) == IF \E k \in 3 .. max : k - 2 <= Len(errs) /\ errs[k - 2] = "lo"
                        THEN CHOOSE k \in 3 .. max : k - 2 <= Len(errs) /\ errs[k - 2] = "lo" /\ \A j \in 3 .. k - 1 : errs[j - 2] # "lo"
                        ELSE max
=============================================================================
