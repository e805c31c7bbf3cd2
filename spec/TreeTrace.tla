----------------------------- MODULE TreeTrace -----------------------------
(* Every recorded force computation comes with the cells that explain it; the cells must be a cover the rule allows. *)
EXTENDS Tree, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1 /\ UNCHANGED vars
Span(c) == c[1] .. c[2]
\* positions 0 .. m-1 without the walker's own, each in exactly one of the used cells
Tiles(b, m) == \A k \in 0 .. m - 1 : Cardinality({u \in 1 .. Len(b.used) : k \in Span(b.used[u])}) = IF k = b.rank THEN 0 ELSE 1
\* the same for many bodies: the used cells come in order, and nothing but the walker lies between two of them
TilesInOrder(b, m) ==
  LET u == b.used
      From(k) == IF k = 1 THEN 0 ELSE u[k - 1][2] + 1          \* first position not yet covered before cell k
      Gap(k, next) == (next = From(k)) \/ (next = From(k) + 1 /\ b.rank = From(k))
  IN Len(u) > 0 /\ (\A k \in 1 .. Len(u) : Gap(k, u[k][1]) /\ u[k][1] <= u[k][2] /\ b.rank \notin Span(u[k])) /\ Gap(Len(u) + 1, m)
Margins(b) == b.least >= 1000 /\ b.most <= 1000
Rule(b) == Ev.exact /\ Ev.p < 1000 * Ev.q =>
  LET pos == [k \in 0 .. Ev.n - 1 |-> Ev.pos[k + 1]]   mass == [k \in 0 .. Ev.n - 1 |-> Ev.mass[k + 1]]   x == pos[b.rank]
  IN /\ \A u \in 1 .. Len(b.used) : Cardinality(Span(b.used[u])) = 1 \/ MayUse(pos, mass, x, Span(b.used[u]), Ev.p, Ev.q)
     /\ \A u \in 1 .. Len(b.opened) : MayOpen(pos, mass, x, Span(b.opened[u]), Ev.p, Ev.q)
\* worst: deviation of the measured accelerations from the pull of the used cells, in rounding units
TTree == /\ IsEvent("tree") /\ Ev.worst >= 0 /\ Ev.worst <= 8 * (Ev.n + 8) /\ Ev.rates /\ 4 * Ev.skip <= Ev.n
         /\ \A i \in 1 .. Len(Ev.bodies) : LET b == Ev.bodies[i] IN (IF Ev.n > 600 THEN TilesInOrder(b, Ev.n) ELSE Tiles(b, Ev.n)) /\ Margins(b) /\ Rule(b)
         /\ Ev.p >= 1000000 * Ev.q => Ev.whole
TNext == TTree
TInit == l = 1 /\ n = 1 /\ far = <<FALSE>> /\ how = "stack" /\ cur = 1 /\ stack = <<>> /\ out = <<>> /\ steps = 0
TSpec == TInit /\ [][TNext]_<<vars, l>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
