---------------------------- MODULE AdamsTrace ----------------------------
(* Recorded steps of the real solvers on a symbolic engine. Derivative        *)
(* evaluations with the same time and argument share one symbol.              *)
EXTENDS Adams, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, seen,      \* states after 1, 2, ... steps of a new solver of this configuration
          u, v, evs, k  \* modified midpoint: combinations of symbols (in quarters of the step), evaluations made, steps
tv == <<vars, l, seen, u, v, evs, k>>
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Keep == UNCHANGED <<u, v, evs, k>>
TNew == IsEvent("new") /\ New(Ev.rank) /\ seen' = <<>> /\ Keep
TReset == IsEvent("reset") /\ Reset /\ UNCHANGED seen /\ Keep
Memory == IF since < Len(seen) THEN Ev.state = seen[since + 1] /\ UNCHANGED seen
                               ELSE since = Len(seen) /\ seen' = Append(seen, Ev.state)
Adams1 == StartStep /\ Ev.starter
Adams2 == MultiStep /\ Ev.only /\ Ev.comb = A(rank)
TStep == IsEvent("step") /\ Memory /\ Keep /\ Ev.timeok
         /\ IF rank = 0 THEN since' = since + 1 /\ UNCHANGED <<rank, multi, startlen>> ELSE Adams1 \/ Adams2
\* ---- modified midpoint
Lin(s) == [x \in {s[i][1] : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i][1] = x][2]]
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Add(f, g) == LET h == [x \in DOMAIN f \cup DOMAIN g |-> At(f, x) + At(g, x)] IN [x \in {y \in DOMAIN h : h[y] # 0} |-> h[x]]
One(s, q) == [x \in {s} |-> q]
Half(f) == [x \in DOMAIN f |-> f[x] \div 2]
Evals == evs' = evs \cup {[s |-> Ev.evals[i].s, at |-> Ev.evals[i].at, arg |-> Lin(Ev.evals[i].arg)] : i \in DOMAIN Ev.evals}
Has(at, arg) == \E e \in evs' : e.at = at /\ e.arg = arg
F(at, arg) == (CHOOSE e \in evs' : e.at = at /\ e.arg = arg).s
UNew == IsEvent("unew") /\ u' = One(0, 4) /\ v' = One(0, 4) /\ evs' = {} /\ k' = 0 /\ UNCHANGED <<vars, seen>>
UStep == /\ IsEvent("ustep") /\ Ev.timeok /\ Evals /\ UNCHANGED <<vars, seen>> /\ k' = k + 1
         /\ Has(2 * k, u)
         /\ LET fu == F(2 * k, u)
                m == Add(v, One(fu, 2))
            IN /\ Has(2 * k + 1, m)
               /\ LET u1 == Add(u, One(F(2 * k + 1, m), 4))
                  IN /\ Has(2 * k + 2, u1)
                     /\ u' = u1
                     /\ v' = Add(v, Add(One(fu, 2), One(F(2 * k + 2, u1), 2)))
                     /\ Lin(Ev.y) = Half(Add(u', v'))
TNext == TNew \/ TReset \/ TStep \/ UNew \/ UStep
TInit == l = 1 /\ rank = 0 /\ since = 0 /\ multi = FALSE /\ startlen = -1 /\ seen = <<>> /\ u = One(0, 4) /\ v = One(0, 4) /\ evs = {} /\ k = 0
TSpec == TInit /\ [][TNext]_tv
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
