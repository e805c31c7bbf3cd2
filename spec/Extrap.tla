------------------------------- MODULE Extrap -------------------------------
(* Extrapolation to step zero from results R_k obtained with N_k = n_k^order   *)
(* (n_k sub-steps). A result is identified by its weights: the extrapolated    *)
(* vector is a linear combination of the entered results, whatever they are.   *)
(* Numbers are residues modulo a prime; rationals are <<numerator, denominator>>. *)
EXTENDS Integers, Sequences
CONSTANT Primes
RECURSIVE PowM(_, _, _)
PowM(b, e, p) == IF e = 0 THEN 1 ELSE LET h == PowM(b, e \div 2, p) IN IF e % 2 = 0 THEN (h * h) % p ELSE (((h * h) % p) * (b % p)) % p
Inv(x, p) == PowM(x % p, p - 2, p)
\* a rational of a trace: sign and the digits of numerator and denominator, leading digit first (the code's numbers exceed what the model checker counts with)
RECURSIVE Digits(_, _, _)
Digits(d, n, p) == IF n = 0 THEN 0 ELSE (Digits(d, n - 1, p) * 32768 + d[n]) % p
Res(q, p) == LET a == (Digits(q.n, Len(q.n), p) * Inv(Digits(q.d, Len(q.d), p), p)) % p IN IF q.neg THEN (p - a) % p ELSE a
RECURSIVE Sum(_, _, _)
Sum(f, n, p) == IF n = 0 THEN 0 ELSE (f[n] + Sum(f, n - 1, p)) % p
N(counts, order, k, p) == PowM(counts[k] % p, order, p)
Good(counts, order, p) == \A i, j \in 1 .. Len(counts) : N(counts, order, i, p) # 0 /\ (i # j => N(counts, order, i, p) # N(counts, order, j, p))
\* sum over k of w_k (1/N_k)^q
Moment(w, counts, order, q, p) == Sum([k \in 1 .. Len(w) |-> (w[k] * PowM(Inv(N(counts, order, k, p), p), q, p)) % p], Len(w), p)
\* the polynomial scheme over results 1..m is exact for every error polynomial of degree below m in 1/N - which determines the weights
ExactPoly(w, counts, order, p) == \A q \in 0 .. Len(w) - 1 : Moment(w, counts, order, q, p) = (IF q = 0 THEN 1 ELSE 0)
\* change from the scheme that leaves the first result out
PolyChange(v, w, counts, order, p) == v[1] = w[1] /\ \A q \in 0 .. Len(v) - 2 : Moment(v, counts, order, q, p) = 0
\* the rational scheme: weights proportional to (-1)^k N_k
Sign(k, x, p) == IF k % 2 = 1 THEN x % p ELSE (p - (x % p)) % p
BerrutSum(counts, order, m, p) == Sum([k \in 1 .. m |-> Sign(k, N(counts, order, k, p), p)], m, p)
ExactRational(w, counts, order, p) ==
   LET s == BerrutSum(counts, order, Len(w), p) IN \A k \in 1 .. Len(w) : (w[k] * s) % p = Sign(k, N(counts, order, k, p), p)
\* change from the scheme without the newest result: (w_k - v_k) are the weights over the earlier ones
RationalChange(v, w, counts, order, p) ==
   /\ ExactRational([k \in 1 .. Len(w) - 1 |-> (w[k] - v[k]) % p], counts, order, p)
   /\ v[Len(v)] = w[Len(w)]
Neg(v, p) == [k \in DOMAIN v |-> (p - v[k]) % p]
VARIABLES type, order, counts, level      \* level: results entered since the table was last started, 0 before
vars == <<type, order, counts, level>>
Fill(k) == (k = 1 \/ k = level + 1) /\ k <= Len(counts) /\ level' = k /\ UNCHANGED <<type, order, counts>>
=============================================================================
