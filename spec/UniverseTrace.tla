--------------------------- MODULE UniverseTrace ---------------------------
EXTENDS Universe, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, memo                \* memo: requests made so far with the contents they gave
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
\* one galaxy: g.hole = centre of the black hole in half ticks, masses in millionths (of the galaxy's 1000: total and hole),
\* far: largest distance of a star from the centre in millionths of the radius, orbit: largest relative deviation from the
\* circular-orbit speed and from the right angle between radius and velocity (1e-9), same: stars of equal mass, all finite, one colour
Galaxy(g, q, k) ==
  /\ IF q.tiny THEN TRUE ELSE g.hole = Centre(q.s, k)
  /\ g.offcentre = 0
  /\ g.mass \in TotalMass * 1000000 - 1 .. TotalMass * 1000000 + 1
  /\ g.holemass \in TotalMass * HolePermille * 1000 - 1 .. TotalMass * HolePermille * 1000 + 1
  /\ g.far \in 0 .. 1000001
  /\ g.speed <= 1000 /\ g.angle <= 1000 /\ g.drift <= 1000
  /\ g.same /\ g.finite /\ g.positive
TMake == /\ IsEvent("make")
         /\ Make(Ev.q)
         /\ Ev.count = count' /\ Ev.sizes = count' /\ Ev.box = box'
         /\ IF Ev.q.n = 0 THEN TRUE ELSE Galaxy(Ev.g[1], Ev.q, 1) /\ Galaxy(Ev.g[2], Ev.q, 2) /\ Ev.opposite
         /\ \A m \in memo : (m.q = Ev.q) => m.id = Ev.id
         /\ memo' = memo \cup {[q |-> Ev.q, id |-> Ev.id]}
TOther == IsEvent("other") /\ Other(Ev.count) /\ UNCHANGED memo
TClear == IsEvent("clear") /\ Clear /\ Ev.count = 0 /\ UNCHANGED memo
\* another data object: nothing held, but the same request must still give the same
TNew == IsEvent("new") /\ held' = Nothing /\ count' = 0 /\ box' = 0 /\ UNCHANGED memo
TInit == l = 1 /\ held = Nothing /\ count = 0 /\ box = 0 /\ memo = {}
TSpec == TInit /\ [][TMake \/ TOther \/ TClear \/ TNew]_<<vars, l, memo>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
