------------------------------ MODULE MCTables ------------------------------
EXTENDS Tables, TLC, Json
CONSTANTS MaxWords, MaxLines, MaxCount
\* a line with at most one bad word and at most one comment sign, numbers told apart by their place
Lines(i) == { [k \in 1 .. n |-> IF k = b THEN Bad ELSE IF k = c THEN Mark ELSE 10 * i + k] : n \in 0 .. MaxWords, b \in 0 .. MaxWords, c \in 0 .. MaxWords }
Renamed(f) == [i \in 1 .. Len(f) |-> [k \in 1 .. Len(f[i]) |-> IF f[i][k] \in {Bad, Mark} THEN f[i][k] ELSE 10 * i + f[i][k]]]
\* Zeno files with at most one fault of each kind: a line of another shape, a line lost, a line too many
Heads == [count : 0 .. MaxCount, dim : {3}, time : {TRUE}] \union [count : {1}, dim : {0, 2, 4, Missing}, time : {TRUE}]
         \union [count : {Missing}, dim : {3, Missing}, time : {TRUE}] \union [count : {1}, dim : {3}, time : {FALSE}]
Shapes(i) == { <<>>, <<Bad>>, <<10 * i + 1>>, <<10 * i + 1, 10 * i + 2>>, <<10 * i + 1, 10 * i + 2, 10 * i + 3>>, <<Bad, 10 * i + 2, 10 * i + 3>>, <<10 * i + 1, Bad, 10 * i + 3>>,
               <<10 * i + 1, 10 * i + 2, Bad>>, <<10 * i + 1, 10 * i + 2, 10 * i + 3, 10 * i + 4>> }
Right(c) == [i \in 1 .. 3 * c |-> IF i <= c THEN <<10 * i + 1>> ELSE <<10 * i + 1, 10 * i + 2, 10 * i + 3>>]
Num(c) == IF c = Missing THEN 1 ELSE c
Changed(s) == {s} \union UNION { { [s EXCEPT ![i] = y] : y \in Shapes(i) } : i \in 1 .. Len(s) }
Cut(s) == {s} \union { SubSeq(s, 1, Len(s) - n) : n \in 1 .. IF Len(s) < 4 THEN Len(s) ELSE 4 } \union { SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in 1 .. Len(s) }
More(s) == {s} \union { Append(s, <<>>), Append(s, <<Bad>>), Append(s, <<91, 92, 93>>) }
Zenos == UNION { UNION { UNION { { [kind |-> "zeno", head |-> h, lines |-> l] : l \in More(k) } : k \in Cut(s) } : s \in Changed(Right(Num(h.count))) } : h \in Heads }
TabInit == \E n \in 0 .. MaxLines : \E f \in [1 .. n -> Lines(0)] : file = [kind |-> "table", lines |-> Renamed(f)]
Start == pos = 1 /\ ph = "head" /\ got = <<>> /\ m = <<>> /\ x = <<>> /\ st = "reading"
Spec == (TabInit \/ file \in Zenos) /\ Start /\ [][Read]_vars /\ WF_vars(Read)
GSpec == (TabInit \/ file \in Zenos) /\ Start /\ [][FALSE]_vars
GPrint == PrintT("@@" \o ToJson([f |-> file, ok |-> Ok(file)]))
=============================================================================
