------------------------------- MODULE Adams -------------------------------
(* Solvers that remember earlier steps.                                        *)
(*  Adams-Bashforth of rank 1..5: a start-up phase made of the starter's own   *)
(*  steps, then  y' = y + dt * sum A(rank)[j+1] * f(step point j steps ago).   *)
(*  Modified midpoint (Stetter): u and v go on from step to step,              *)
(*   u' = u + dt f(t+dt/2, v + dt/2 f(t,u)), v' = v + dt/2 (f(t,u)+f(t',u')),  *)
(*   y' = (u'+v')/2.                                                           *)
(*  A reset starts either of them anew from the state of that moment.          *)
EXTENDS Integers, Sequences, FiniteSets
A(r) == CASE r = 1 -> << <<1, 1>> >>
          [] r = 2 -> << <<3, 2>>, <<-1, 2>> >>
          [] r = 3 -> << <<23, 12>>, <<-4, 3>>, <<5, 12>> >>
          [] r = 4 -> << <<55, 24>>, <<-59, 24>>, <<37, 24>>, <<-3, 8>> >>
          [] r = 5 -> << <<1901, 720>>, <<-1387, 360>>, <<109, 30>>, <<-637, 360>>, <<251, 720>> >>
\* the combination integrates every polynomial of degree below the rank: sum a_j (-j)^q = 1/(q+1)
RECURSIVE Pow(_, _), SumTo(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Exact(r) == \A q \in 0 .. r - 1 : (q + 1) * SumTo([j \in 1 .. r |-> (720 \div A(r)[j][2]) * A(r)[j][1] * Pow(-(j - 1), q)], r) = 720
ASSUME \A r \in 1 .. 5 : Exact(r) /\ Len(A(r)) = r

VARIABLES rank,      \* 0: no solver
          since,     \* steps since creation or the last reset
          multi,     \* the start-up is over
          startlen   \* length of the start-up, once known (-1 before); it is the same after every reset
vars == <<rank, since, multi, startlen>>
New(r) == rank' = r /\ since' = 0 /\ multi' = FALSE /\ startlen' = -1
Reset == since' = 0 /\ multi' = FALSE /\ UNCHANGED <<rank, startlen>>
\* the start-up lasts until rank derivatives are known, and no longer than two further steps
StartStep == ~multi /\ since <= rank /\ (startlen # -1 => since < startlen)
             /\ since' = since + 1 /\ UNCHANGED <<rank, multi, startlen>>
MultiStep == /\ since >= rank - 1
             /\ startlen \in {-1, since} \/ multi
             /\ multi' = TRUE /\ startlen' = (IF multi THEN startlen ELSE since)
             /\ since' = since + 1 /\ UNCHANGED rank
=============================================================================
