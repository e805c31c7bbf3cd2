------------------------------ MODULE MCExtrap ------------------------------
(* The table of the polynomial scheme, row by row, for all histories of filling and restarting. *)
EXTENDS Extrap, FiniteSets, Json, TLC
CONSTANTS Orders, MaxLen, Sequences_, Emitting, Queries
VARIABLES row, prev, hist
mc == <<vars, row, prev, hist>>
P == CHOOSE p \in Primes : TRUE
Seqs == {<<1, 2, 3, 4>>, <<2, 4, 6, 8, 12>>, <<3, 5, 4, 7>>, <<6, 4, 2, 1>>, <<2, 4, 8, 16, 32>>}
GenSeqs == {<<1, 2, 3, 4, 5>>}
LongSeqs == {[i \in 1 .. 12 |-> i]}
DeepSeqs == {[i \in 1 .. 10 |-> 2 * i], <<2, 4, 6, 8, 12, 16, 24, 32, 48, 64>>}
Unit(k, n) == [i \in 1 .. n |-> IF i = k THEN 1 ELSE 0]
Pad(w, n) == [i \in 1 .. n |-> IF i <= Len(w) THEN w[i] ELSE 0]
RECURSIVE Build(_, _, _, _)
\* T_{k,j+1} = (T_{k,j} N_k - T_{k-1,j} N_{k-j-1}) / (N_k - N_{k-j-1}); rows hold weights over results 1..k
Build(r, old, k, j) ==
   IF j = k - 1 THEN r
   ELSE LET a == N(counts, order, k, P)
            b == N(counts, order, k - j - 1, P)
            d == Inv((a - b) % P, P)
            o == Pad(old[j + 1], k)
            t == [i \in 1 .. k |-> (((r[j + 1][i] * a - o[i] * b) % P) * d) % P]
        IN Build(Append(r, t), old, k, j + 1)
Init == /\ type = "neville" /\ order \in Orders /\ counts \in Sequences_ /\ level = 0 /\ row = <<>> /\ prev = <<>> /\ hist = <<>>
Next == \/ /\ ~Emitting /\ \E k \in 1 .. Len(counts) : Fill(k) /\ row' = Build(<<Unit(k, k)>>, row, k, 0) /\ hist' = Append(hist, k)
           /\ UNCHANGED prev /\ Len(hist) < MaxLen
        \/ /\ Emitting /\ Len(hist) < MaxLen
           /\ \/ \E k \in 1 .. Len(counts) : Fill(k) /\ hist' = Append(hist, k)
              \/ Queries /\ level > 0 /\ (Len(hist) = 0 \/ hist[Len(hist)] > 0) /\ hist' = Append(hist, -1) /\ UNCHANGED vars
              \/ Queries /\ level > 1 /\ (Len(hist) = 0 \/ hist[Len(hist)] > -2) /\ hist' = Append(hist, -2) /\ UNCHANGED vars
           /\ UNCHANGED <<row, prev>>
Spec == Init /\ [][Next]_mc
Correct == (level > 0 /\ ~Emitting) =>
   (/\ Len(row) = level
    /\ ExactPoly(row[level], counts, order, P)
    /\ (level > 1 => PolyChange([i \in 1 .. level |-> (row[level][i] - row[level - 1][i]) % P], row[level], counts, order, P)))
Emit == Len(hist) = MaxLen => PrintT("@@" \o ToJson([acts |-> hist]))
=============================================================================
