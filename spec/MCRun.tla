-------------------------------- MODULE MCRun --------------------------------
EXTENDS Run, Json
CONSTANTS T0s, TMaxs, Intervals, Emitting
\* "exact" intervals whose decision would hinge on rounding (interval = 2 units modulo a step) are left out
Ints == {i \in Intervals : i = 0 \/ i % DT # Tol}
Params == [t0 : T0s, tmax : TMaxs, dump : Ints, chk : Ints, stream : BOOLEAN, visitors : {0, 2}, clamp : BOOLEAN, failat : {0, 2}]
Sane(q) == (q.failat > 0 => q.stream /\ q.dump > 0) /\ (~q.stream => q.dump \in {0, 30})
SmallT0 == {-40, 0, 27}
SmallTM == {-10, 0, 90, 131}
LiveTM == {-10, 0, 90}
GenT0 == {-40, -7, 0, 20, 27}
GenTM == {-10, 0, 20, 90, 131, 199}
MCInit == \E q \in Params : Sane(q) /\ Start(q, 0)
MCSpec == MCInit /\ [][Next]_vars
Live == MCSpec /\ WF_vars(Next)
Terminates == <>(result # "running")
JustStart == step = 0 /\ nframes = 0 /\ pc \in {"first", "head"}
Emit == (Emitting /\ step = 0 /\ nframes = 0 /\ pc \in {"first", "head"}) => PrintT("@@" \o ToJson(p))
==============================================================================
