------------------------------- MODULE Life -------------------------------
(* Who holds the buffers of an engine. A user of the engine (a solver with its parts, an    *)
(* extrapolation table) takes buffers, works with them and gives each back exactly once,    *)
(* wherever its life ends: before it is given an engine, before its first step, after any   *)
(* steps and resets. Repeating the same work needs no more buffers than doing it once.      *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES live,      \* buffers taken and not yet given back
          lent,      \* buffers of the engine itself that its users may work with
          stage,     \* "none", "made", "attached", "ended"
          peak,      \* most buffers held in the current round of work
          first      \* most buffers held in the first round, 0 before its end
lvars == <<live, lent, stage, peak, first>>
Max(a, b) == IF a > b THEN a ELSE b
LInit == live = {} /\ lent = {} /\ stage = "none" /\ peak = 0 /\ first = 0
Make == stage' = "made" /\ live' = {} /\ lent' = {} /\ peak' = 0 /\ first' = 0
Attach == stage = "made" /\ stage' = "attached" /\ UNCHANGED <<live, lent, peak, first>>
Lend(S) == stage \in {"made", "attached"} /\ S \cap live = {} /\ lent' = lent \cup S /\ UNCHANGED <<live, stage, peak, first>>
Take(S) == stage = "attached" /\ S \cap (live \cup lent) = {} /\ live' = live \cup S /\ peak' = Max(peak, Cardinality(live')) /\ UNCHANGED <<lent, stage, first>>
Give(S) == stage = "attached" /\ S \subseteq live /\ live' = live \ S /\ UNCHANGED <<lent, stage, peak, first>>
Use(S) == stage = "attached" /\ S \subseteq live \cup lent /\ UNCHANGED lvars
Call(k) == (k # "reset" => stage = "attached") /\ stage \in {"made", "attached"} /\ UNCHANGED lvars
\* the same work starts again
Round == /\ stage = "attached" /\ (first > 0 => peak <= first)
         /\ first' = IF first = 0 THEN peak ELSE first
         /\ peak' = Cardinality(live) /\ UNCHANGED <<live, lent, stage>>
End == stage \in {"made", "attached"} /\ live = {} /\ stage' = "ended" /\ UNCHANGED <<live, lent, peak, first>>
\* amounts of some resource after each of several repetitions: it does not grow each time
Grows(s) == Len(s) > 1 /\ \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]
\* how a simulation may end: 0 done, 255 refused
Ended(life, rc) == rc = (IF life \in {"run", "nothing to do"} THEN 0 ELSE 255)
===========================================================================
