------------------------------ MODULE IdxFile ------------------------------
(***************************************************************************)
(* The index file: which texts are an index, and which frames a reader     *)
(* delivers given the parts that are really there.                         *)
(* A stream is three header lines and one line per frame.  Kinds of header *)
(* line: "ok", "missing", "text" (value not a number), "short" (no value), *)
(* "zero"; the coordinate size may also be "other".  Kinds of frame line:  *)
(* "ok", "few"/"many" (wrong number of columns), "step", "time", "part",   *)
(* "off" (that column is not a number), "negoff", "far" (beyond   *)
(* the part), "nopart" (part does not exist), "tail" (only part of the     *)
(* frame is inside the part).                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
HKinds == {"ok", "missing", "text", "short", "zero"}
CKinds == HKinds \cup {"other"}
LKinds == {"ok", "few", "many", "step", "time", "part", "off", "negoff", "far", "nopart", "tail"}
Malformed == {"few", "many", "step", "time", "part", "off"}
Undeliverable == {"negoff", "far", "nopart", "tail"}
Headers == {[c |-> c, b |-> "ok", x |-> "ok"] : c \in CKinds} \cup {[c |-> "ok", b |-> b, x |-> "ok"] : b \in HKinds}
           \cup {[c |-> "ok", b |-> "ok", x |-> x] : x \in HKinds}
GoodHeader == [c |-> "ok", b |-> "ok", x |-> "ok"]
CONSTANT MaxLines
Lines == UNION {[1 .. k -> LKinds] : k \in 0 .. MaxLines}
WellFormed(h, ls) == h = GoodHeader /\ ls # <<>> /\ \A i \in 1 .. Len(ls) : ls[i] \notin Malformed
\* what a reader must do: "reject" the index, or "read" exactly the deliverable frames
VARIABLES h, ls
Init == \/ h \in Headers /\ ls \in Lines /\ (h = GoodHeader \/ ls \in {<<"ok">>, <<"ok", "ok">>})
Next == UNCHANGED <<h, ls>>
Spec == Init /\ [][Next]_<<h, ls>>
Deliver(kinds) == [i \in 1 .. Len(kinds) |-> kinds[i] = "ok"]
Emit == PrintT("@@" \o ToJson([h |-> h, ls |-> ls, ok |-> WellFormed(h, ls), frames |-> Deliver(ls)]))
=============================================================================
