---------------------------- MODULE SolverTrace ----------------------------
(* Single steps of the real solvers on recording engines against Tableaux.   *)
EXTENDS Tableaux, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
\* both rows of these meet the documented order
EitherRow == {"rkdverk", "rkf"}
\* listed findings: the embedded row of lower order is the one that advances the state
FoundOrder(name) == CASE name \in {"rkck", "rkdp"} -> 4 [] name \in {"rkgl", "rklc"} -> 2
Clean == Ev.timeok /\ Ev.foreign /\ Ev.leaked = 0
OneStep == Ev.steps = 1 /\ Ev.nodes       \* one step, every derivative taken at the time its argument belongs to
TMethod == /\ IsEvent("method") /\ Clean /\ OneStep
           /\ LET m == Method(Ev.name, Ev.refine)
                  rows == {m.b} \cup (IF Ev.name \in EitherRow \/ Ev.known THEN {m.other} ELSE {})
                  d == Diff(m.b, m.other)
              IN /\ Ev.a = m.a
                 /\ Ev.b \in rows
                 /\ m.emb => Len(Ev.err) = 1 /\ (Ev.err[1] = d \/ Ev.err[1] = [i \in 1 .. Len(d) |-> Neg(d[i])])
TFeagin == /\ IsEvent("feagin") /\ Clean /\ OneStep
           /\ Ev.stages = Stages(Ev.name)
           /\ Len(Ev.err) = 1
           /\ LET s == Ev.stages
                  want(sg) == [i \in 1 .. s |-> IF i = 2 THEN (IF sg THEN ErrFactor(Ev.name) ELSE Neg(ErrFactor(Ev.name)))
                                                ELSE IF i = s - 1 THEN (IF sg THEN Neg(ErrFactor(Ev.name)) ELSE ErrFactor(Ev.name)) ELSE Z]
              IN Ev.err[1] = want(TRUE) \/ Ev.err[1] = want(FALSE)
Good == {Ev.good[i] : i \in 1 .. Len(Ev.good)}
TOrder == /\ IsEvent("order")
          /\ LET p == IF Ev.name = "bs" THEN 2 * Ev.levels ELSE IF Ev.known THEN FoundOrder(Ev.name) ELSE Order(Ev.name)
             IN 1 .. p \subseteq Good
TBs == IsEvent("bs") /\ Clean
TNext == TMethod \/ TFeagin \/ TOrder \/ TBs
TInit == l = 1
TSpec == TInit /\ [][TNext]_l
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
