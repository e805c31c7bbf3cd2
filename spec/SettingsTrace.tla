--------------------------- MODULE SettingsTrace ---------------------------
EXTENDS Settings, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
IsEvent(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
Same(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : a[k] = b[k]
\* cfg: the configuration that was built directly; same: the object made from the arguments behaves exactly like it
TMake == /\ IsEvent("make")
         /\ LET want == Made(Ev.what, Ev.args) IN
            IF want.kind = "refused" THEN ~Ev.made
            ELSE Ev.made /\ Ev.cfg.kind = want.kind /\ Ev.cfg = want /\ Ev.same
\* the settings read from the list
TParse == IsEvent("parse") /\ LET p == ParamOf(Ev.args) IN DOMAIN p = { Ev.got[i].name : i \in 1 .. Len(Ev.got) } /\ \A i \in 1 .. Len(Ev.got) : p[Ev.got[i].name] = Ev.got[i].value
\* a run of the program: what it left under the output name (nothing if refused)
TProgram == /\ IsEvent("program")
            /\ LET w == Program(ParamOf(Ev.args), Ev.initial) IN
               IF ~w.ok THEN Ev.rc # 0 /\ Ev.steps = <<>>
               ELSE /\ Ev.rc = 0 /\ Ev.n = w.n /\ Ev.steps = w.steps /\ Ev.parts = w.parts /\ Ev.timed /\ Ev.output = w.output
                    /\ ~w.file => Ev.box = w.box
TNext == (TProgram \/ TMake \/ TParse) /\ UNCHANGED vars
TInit == l = 1 /\ args = 0 /\ pos = 0 /\ param = 0
TSpec == TInit /\ [][TNext]_<<vars, l>>
Reached == TLCSet(1, IF l - 1 > TLCGet(1) THEN l - 1 ELSE TLCGet(1))
ASSUME TLCSet(1, 0)
Report == PrintT("@@{\"matched\":" \o ToString(TLCGet(1)) \o "}")
=============================================================================
