------------------------------ MODULE VecTrace ------------------------------
EXTENDS Vec, Json, IOUtils, TLC, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
\* a new engine holds the bodies (pattern 1) in buffer 1
TEngine == IsEvent("engine") /\ Ev.ok /\ Ev.bufs = <<<<1, 0, 0, 0, 0>>>> /\ buf' = [b \in {1} |-> <<1, 0, 0, 0, 0>>] /\ args' = <<>>
TBuf == IsEvent("buf") /\ Ev.ok
        /\ buf' = [b \in DOMAIN buf \cup {Ev.id} |-> IF b = Ev.id THEN (IF Ev.pat = 0 THEN Zero ELSE Unit(Ev.pat)) ELSE buf[b]] /\ UNCHANGED args
        /\ \A b \in DOMAIN buf' : Ev.bufs[b] = buf'[b]
TOp == IsEvent("op") /\ Do(Ev.o)
       /\ Len(Ev.bufs) = Cardinality(DOMAIN buf)
       /\ \A b \in DOMAIN buf' : Ev.bufs[b] = buf'[b]
       /\ (Ev.o.op = "max" => Ev.normok)
\* thousands of terms, each below the rounding unit of the sum, are not lost
TKahan == IsEvent("kahan") /\ Ev.off <= 2 /\ Ev.added >= 1000 /\ UNCHANGED vars
\* copying, reading and writing keep every bit pattern
TBits == IsEvent("bits") /\ Ev.same /\ UNCHANGED vars
\* the norm takes every element into account
TNorms == IsEvent("norms") /\ Ev.bad = 0 /\ Ev.all > 0 /\ UNCHANGED vars
TData == IsEvent("getdata") /\ Ev.same /\ UNCHANGED vars
\* a selection of devices is accepted if and only if it is usable
TSelect == IsEvent("select") /\ Ev.ready = Ev.usable /\ Ev.made = Ev.usable /\ UNCHANGED vars
TNext == TSelect \/ TEngine \/ TBuf \/ TOp \/ TKahan \/ TBits \/ TNorms \/ TData
TInit == l = 1 /\ buf = [b \in {1} |-> <<>>] /\ args = <<>>
TSpec == TInit /\ [][TNext]_<<vars, l>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
