---------------------------- MODULE ExtrapTrace ----------------------------
EXTENDS Extrap, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TNew == IsEvent("new") /\ type' = Ev.type /\ order' = Ev.order /\ counts' = Ev.counts /\ level' = 0
TFill == IsEvent("fill") /\ Ev.kept /\ Fill(Ev.level)
W(p) == [k \in 1 .. level |-> Res(Ev.w[k], p)]
V(p) == [k \in 1 .. level |-> Res(Ev.v[k], p)]
Fits(p) == IF type = "neville" THEN ExactPoly(W(p), counts, order, p) ELSE ExactRational(W(p), counts, order, p)
Change(v, p) == IF type = "neville" THEN PolyChange(v, W(p), counts, order, p) ELSE RationalChange(v, W(p), counts, order, p)
\* only results of the current filling take part, with the right weights
TExt == IsEvent("ext") /\ Ev.only /\ Len(Ev.w) = level /\ UNCHANGED vars
        /\ \A p \in Primes : Good(counts, order, p) => Fits(p)
\* the estimate is the norm of the change, up to sign
TEst == IsEvent("est") /\ Ev.only /\ Ev.value /\ Len(Ev.v) = level /\ UNCHANGED vars
        /\ \A p \in Primes : Good(counts, order, p) => (Change(V(p), p) \/ Change(Neg(V(p), p), p))
TNext == TNew \/ TFill \/ TExt \/ TEst
TInit == l = 1 /\ type = "" /\ order = 1 /\ counts = <<>> /\ level = 0
TSpec == TInit /\ [][TNext]_<<vars, l>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
