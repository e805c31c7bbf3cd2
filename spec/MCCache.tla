------------------------------ MODULE MCCache ------------------------------
EXTENDS Cache, TLC, Json
\* generation: complete histories of step numbers
GPrint == (v = MaxLen /\ hist[v][1] = step) => PrintT("@@" \o ToJson([rate |-> rate, steps |-> [i \in 1 .. v |-> hist[i][1]]]))
=============================================================================
