------------------------------- MODULE MCStats -------------------------------
EXTENDS Stats, TLC, Json
CONSTANTS MaxV, MaxLen, Lists
MCTotal(q, x) == x
MCNothing(q) == 0
VARIABLE hist, firstAt      \* the operations so far; the bodies the first computation saw
Init == s = 1 /\ e = 1 /\ list = {"P", "L", "V"} /\ Fresh /\ hist = <<>> /\ firstAt = 0
Log(op) == hist' = Append(hist, op)
Next == /\ Len(hist) < MaxLen
        /\ \/ \E x \in Lists : SetList(x) /\ Log([op |-> "list", list |-> x]) /\ firstAt' = firstAt
           \/ \E x \in 1 .. MaxV : SetBodies(x) /\ Log([op |-> "bodies", v |-> x]) /\ firstAt' = firstAt
           \/ \E x \in 1 .. MaxV : EngineMoves(x) /\ Log([op |-> "engine", v |-> x]) /\ firstAt' = firstAt
           \/ \E w \in BOOLEAN : Compute(w) /\ Log([op |-> "stat", engine |-> w]) /\ firstAt' = IF first THEN s' ELSE firstAt
Spec == Init /\ [][Next]_<<vars, hist, firstAt>>
Computed == { i \in 1 .. Len(hist) : hist[i].op = "stat" }
\* the reference is that of the first computation, whatever happens later
Reference == ~first => \A q \in Q : ref[q] \in {0, firstAt}
Steady == [][~first => ref' = ref]_<<vars, hist, firstAt>>
\* what was reported last of a listed quantity is its present value right after a computation
Present == (hist # <<>> /\ hist[Len(hist)].op = "stat") => \A q \in list : last[q] = s
\* quantities off the list keep what was reported
Untouched == [][\A q \in Q : (q \notin list => last'[q] = last[q])]_<<vars, hist, firstAt>>
NoHarm == [][(hist' # hist /\ hist'[Len(hist')].op = "stat") => e' = e /\ s' \in {s, e}]_<<vars, hist, firstAt>>
GPrint == (Len(hist) = MaxLen /\ Computed # {}) => PrintT("@@" \o ToJson(hist))
=============================================================================
