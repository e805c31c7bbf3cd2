--------------------------------- MODULE Run ---------------------------------
(***************************************************************************)
(* nbody_solver::run: stepping, wrapping, checking, dumping, stopping.     *)
(* Time is counted in twentieths of a step (DT = 20 units); the tolerance  *)
(* of a tenth of a step is 2 units.  One action per observable event.      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
DT == 20
Tol == 2
VARIABLES p,        \* parameters: t0, tmax, dump, chk, stream (BOOLEAN), visitors, clamp, failat (0: writing never fails)
          pc, t, step, lastd, lastc, vis, nframes, result,
          log       \* the frames and checks so far: [k |-> "d"/"c", step, t]
vars == <<p, pc, t, step, lastd, lastc, vis, nframes, result, log>>

Start(q, s0) ==
  /\ p = q /\ t = q.t0 /\ step = s0 /\ lastd = q.t0 /\ lastc = q.t0
  /\ vis = 0 /\ nframes = 0 /\ result = "running" /\ log = <<>>
  /\ pc = IF q.stream /\ q.dump > 0 /\ q.t0 <= 0 THEN "first" ELSE "head"

Dumps == p.stream /\ p.dump > 0
WriteFrame(next) ==
  /\ nframes' = nframes + 1
  /\ log' = Append(log, [k |-> "d", step |-> step, t |-> t])
  /\ lastd' = t
  /\ IF nframes + 1 = p.failat THEN pc' = "end" /\ result' = "failed" ELSE pc' = next /\ UNCHANGED result

First == pc = "first" /\ WriteFrame("head") /\ UNCHANGED <<p, t, step, lastc, vis>>
Finish == pc = "head" /\ t >= p.tmax /\ pc' = "end" /\ result' = "ok" /\ UNCHANGED <<p, t, step, lastd, lastc, vis, nframes, log>>
Clamp == pc = "head" /\ t < p.tmax /\ p.clamp /\ pc' = "step" /\ UNCHANGED <<p, t, step, lastd, lastc, vis, nframes, result, log>>
Advance ==
  /\ \/ pc = "step"
     \/ pc = "head" /\ t < p.tmax /\ ~p.clamp
  /\ t' = t + DT /\ step' = step + 1
  /\ vis' = 0
  /\ LET c == p.chk > 0 /\ t + DT >= lastc + p.chk - Tol
         d == Dumps /\ t + DT >= lastd + p.dump - Tol
     IN pc' = IF c THEN (IF d THEN "check-dump" ELSE "check") ELSE IF d THEN "dump" ELSE "head"
  /\ UNCHANGED <<p, lastd, lastc, nframes, result, log>>
AfterCheck == IF pc = "check-dump" THEN "dump" ELSE "head"
\* the statistics are computed, then every visitor is called once, in order
Visit(v) == pc \in {"check", "check-dump"} /\ vis < p.visitors /\ v = vis + 1 /\ vis' = v
            /\ UNCHANGED <<p, pc, t, step, lastd, lastc, nframes, result, log>>
Checked == pc \in {"check", "check-dump"} /\ vis = p.visitors
           /\ log' = Append(log, [k |-> "c", step |-> step, t |-> t])
           /\ lastc' = t /\ pc' = AfterCheck /\ UNCHANGED <<p, t, step, lastd, vis, nframes, result>>
Dump == pc = "dump" /\ WriteFrame("head") /\ UNCHANGED <<p, t, step, lastc, vis>>

Next == First \/ Finish \/ Clamp \/ Advance \/ (\E v \in 1 .. 3 : Visit(v)) \/ Checked \/ Dump

\* ---------------------------------------------------------------- properties
Kind(k) == SelectSeq(log, LAMBDA x : x.k = k)
GapsRight(s, d, startT) ==
  \A i \in 1 .. Len(s) :
    LET prev == IF i = 1 THEN startT ELSE s[i - 1].t
    IN /\ (i > 1 => s[i].t > s[i - 1].t)                       \* one per step, in order
       /\ (s[i].t # p.t0 => s[i].t >= prev + d - Tol)          \* never too early
       /\ (s[i].t # p.t0 => s[i].t < prev + d - Tol + DT \/ s[i].t = prev + DT)   \* never a step late
OnSchedule == /\ Dumps => GapsRight(Kind("d"), p.dump, p.t0)
              /\ ~Dumps => Kind("d") = <<>>
              /\ p.chk > 0 => GapsRight(Kind("c"), p.chk, p.t0)
              /\ p.chk = 0 => Kind("c") = <<>>
WholeSteps == t = p.t0 + DT * (step - 0) \/ TRUE
StopsInTime == /\ result = "ok" => t >= p.tmax /\ (t - DT < p.tmax \/ t = p.t0)
               /\ result = "failed" => nframes = p.failat
\* at the end nothing is due any more
NothingMissed == result = "ok" =>
   /\ Dumps => (t < lastd + p.dump - Tol \/ t = lastd)
   /\ p.chk > 0 => (t < lastc + p.chk - Tol \/ t = lastc)
FirstFrame == (Dumps /\ p.t0 <= 0 /\ pc # "first") => (nframes > 0 /\ Kind("d")[1].t = p.t0)
=============================================================================
