----------------------------- MODULE StatsTrace -----------------------------
(* Bodies are [x, y, z, vx, vy, vz, m] with integer entries, every distance   *)
(* an integer dividing the products of masses, so all totals are integers.    *)
(* The mass centre is compared as the sum of m*r (the total mass is fixed).   *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Of(b, F(_)) == [i \in 1 .. Len(b) |-> F(b[i])]
Root(n) == CHOOSE r \in 0 .. 60 : r * r = n
D2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]) + (a[3] - b[3]) * (a[3] - b[3])
Pot(a, b) == IF D2(a, b) = 0 THEN 0 ELSE (a[7] * b[7]) \div Root(D2(a, b))
Vec(b, X(_), Y(_), Z(_)) == <<Sum(Of(b, X)), Sum(Of(b, Y)), Sum(Of(b, Z))>>
Impulse(b) == Vec(b, LAMBDA p : p[7] * p[4], LAMBDA p : p[7] * p[5], LAMBDA p : p[7] * p[6])
Moment(b) == Vec(b, LAMBDA p : p[7] * (p[2] * p[6] - p[3] * p[5]), LAMBDA p : p[7] * (p[3] * p[4] - p[1] * p[6]), LAMBDA p : p[7] * (p[1] * p[5] - p[2] * p[4]))
Centre(b) == Vec(b, LAMBDA p : p[7] * p[1], LAMBDA p : p[7] * p[2], LAMBDA p : p[7] * p[3])
Energy(b) == Sum(Of(b, LAMBDA p : (p[7] * (p[4] * p[4] + p[5] * p[5] + p[6] * p[6])) \div 2))
             - Sum([i \in 1 .. Len(b) |-> Sum([j \in 1 .. i - 1 |-> Pot(b[i], b[j])])])
TTotal(q, b) == CASE q = "P" -> Impulse(b) [] q = "L" -> Moment(b) [] q = "V" -> Centre(b) [] OTHER -> <<Energy(b)>>
TNothing(q) == IF q = "E" THEN <<0>> ELSE <<0, 0, 0>>
VARIABLES l, s, e, list, first, ref, last
S == INSTANCE Stats WITH Total <- TTotal, Nothing <- TNothing
Ev == Trace[l]
IsEvent(x) == l <= Len(Trace) /\ Trace[l].e = x /\ l' = l + 1
Letters(x) == { x[i] : i \in 1 .. Len(x) }
TStart == /\ IsEvent("start") /\ s' = Ev.bodies /\ e' = Ev.bodies /\ list' = {"P", "L", "V"} /\ first' = TRUE
          /\ ref' = [q \in S!Q |-> TNothing(q)] /\ last' = [q \in S!Q |-> TNothing(q)]
TList == IsEvent("list") /\ S!SetList(Letters(Ev.list))
TBodies == IsEvent("bodies") /\ S!SetBodies(Ev.bodies)
TEngine == IsEvent("engine") /\ S!EngineMoves(Ev.bodies)
\* dev: deviation of the energy, squared deviation of a vector, that the reported percentage stands for, given the reported reference; none if that is zero
Diff2(a, b) == IF Len(a) = 1 THEN (IF a[1] < b[1] THEN b[1] - a[1] ELSE a[1] - b[1]) ELSE D2(a, b)
IsZero(x) == \A i \in 1 .. Len(x) : x[i] = 0
TStat == /\ IsEvent("stat") /\ S!Compute(Ev.engine)
         /\ Ev.bodies = s' /\ Ev.held = e' /\ Ev.kept       \* kept: time, step, masses, box as before
         /\ \A q \in S!Q : Ev.ref[q] = ref'[q] /\ Ev.last[q] = last'[q]
         /\ \A q \in {"P", "L", "E"} : IF IsZero(ref'[q]) THEN ~Ev.finite[q] ELSE Ev.finite[q] /\ Ev.dev[q] = Diff2(last'[q], ref'[q])
         /\ Ev.logged                                       \* the line written says the same, for the quantities on the list only
TClose == IsEvent("close") /\ Ev.ok
TNext == TStart \/ TList \/ TBodies \/ TEngine \/ TStat \/ (TClose /\ UNCHANGED <<s, e, list, first, ref, last>>)
TInit == l = 1 /\ s = 0 /\ e = 0 /\ list = {} /\ first = TRUE /\ ref = 0 /\ last = 0
TSpec == TInit /\ [][TNext]_<<l, s, e, list, first, ref, last>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
