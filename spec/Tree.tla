-------------------------------- MODULE Tree --------------------------------
(* The Barnes-Hut walk over a binary tree of cells, and what it must achieve.
   Cells carry the numbers of a heap: 1 is the root, 2i and 2i+1 are the halves of i, the n single bodies are n .. 2n-1.
   far says for which cells the walker is far enough away; single bodies are near only when they are at its own place.
   Two walkers: one keeps a stack, the other finds its way by cell numbers alone. *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS MaxN
VARIABLES n, far, how, cur, stack, out, steps
vars == <<n, far, how, cur, stack, out, steps>>
Cells(m) == 1 .. (2 * m - 1)
IsBody(m, i) == i >= m
Range(s) == {s[k] : k \in 1 .. Len(s)}

(* ---- the shape: how many bodies of a cell go to its left half ---- *)
RECURSIVE Power(_, _)
Power(p, m) == IF 2 * p <= m THEN Power(2 * p, m) ELSE p         \* the largest power of two not above m
LeftSize(m) == LET p == Power(1, m) IN IF m - (p \div 2) < p THEN m - (p \div 2) ELSE p
RECURSIVE Spread(_, _, _)
\* the cells below i when i has m bodies starting at position lo: cell -> <<lo, hi>>
Spread(i, lo, m) == IF m = 1 THEN {<<i, lo, lo>>}
                    ELSE {<<i, lo, lo + m - 1>>} \cup Spread(2 * i, lo, LeftSize(m)) \cup Spread(2 * i + 1, lo + LeftSize(m), m - LeftSize(m))
\* exactly the cells 1 .. 2n-1 are used, and the single bodies are the last n of them
Shape(m) == LET s == Spread(1, 0, m)
            IN /\ {x[1] : x \in s} = Cells(m) /\ Cardinality(s) = 2 * m - 1
               /\ \A x \in s : (x[2] = x[3]) <=> IsBody(m, x[1])
\* renewing cells level by level, from the last level to the root, finds both halves of every cell renewed already
RECURSIVE Renew(_, _, _)
Renew(m, level, ready) ==
  IF level = 0 THEN ready = Cells(m)
  ELSE LET now == {i \in level .. 2 * level - 1 : i < m}
       IN (\A i \in now : {2 * i, 2 * i + 1} \subseteq ready) /\ Renew(m, level \div 2, ready \cup now)
Levels(m) == Renew(m, Power(1, IF m > 1 THEN m - 1 ELSE 1), {i \in Cells(m) : IsBody(m, i)})

(* ---- the wanted cover ---- *)
RECURSIVE Cover(_)
Cover(i) == IF far[i] THEN {i} ELSE IF IsBody(n, i) THEN {} ELSE Cover(2 * i) \cup Cover(2 * i + 1)
RECURSIVE Bodies(_)
Bodies(i) == IF IsBody(n, i) THEN {i} ELSE Bodies(2 * i) \cup Bodies(2 * i + 1)

(* ---- the walkers ---- *)
RECURSIVE Down(_)
Down(i) == IF i % 2 = 0 THEN i + 1 ELSE IF i = 1 THEN 1 ELSE Down(i \div 2)
Up(i) == IF 2 * i <= 2 * n - 1 THEN 2 * i ELSE Down(i)
Init == /\ n \in 1 .. MaxN
        /\ far \in [Cells(n) -> BOOLEAN]
        /\ how \in {"stack", "numbers"}
        /\ cur = 1 /\ stack = IF how = "stack" THEN <<1>> ELSE <<>>
        /\ out = <<>> /\ steps = 0
WalkStack == /\ how = "stack" /\ stack # <<>>
             /\ LET i == stack[Len(stack)]   rest == SubSeq(stack, 1, Len(stack) - 1)
                IN IF far[i] THEN out' = Append(out, i) /\ stack' = rest
                   ELSE /\ out' = out
                        /\ stack' = IF 2 * i <= 2 * n - 1 THEN rest \o <<2 * i + 1, 2 * i>> ELSE rest
             /\ steps' = steps + 1 /\ UNCHANGED <<n, far, how, cur>>
WalkNumbers == /\ how = "numbers" /\ (cur # 1 \/ steps = 0)
               /\ IF far[cur] THEN out' = Append(out, cur) /\ cur' = Down(cur) ELSE out' = out /\ cur' = Up(cur)
               /\ steps' = steps + 1 /\ UNCHANGED <<n, far, how, stack>>
Next == WalkStack \/ WalkNumbers
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == IF how = "stack" THEN stack = <<>> ELSE cur = 1 /\ steps > 0
\* nothing twice, and in the end exactly the cover: every body not at the walker's place in exactly one used cell
Once == /\ Cardinality(Range(out)) = Len(out)
        /\ \A a, b \in Range(out) : a # b => Bodies(a) \cap Bodies(b) = {}
Complete == Finished => /\ Range(out) = Cover(1)
                        /\ \A i \in Cells(n) : IsBody(n, i) /\ far[i] => \E a \in Range(out) : i \in Bodies(a)
Bounded == steps <= 2 * n - 1 /\ Len(stack) <= 64 /\ cur \in Cells(n)
Shaped == Shape(n) /\ Levels(n)
Terminates == <>Finished

(* ---- the opening rule in whole numbers ----
   pos, mass: whole-number places and masses; S: bodies of a cell; the walker is far from S when its distance to the mass
   centre exceeds p/q times the radius: half the diagonal of the box plus the distance of its middle from the mass centre. *)
RECURSIVE Half(_, _, _)
Half(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN Half(x, m, hi) ELSE Half(x, lo, m)
Root(x) == Half(x, 0, 46341)                                      \* the whole part of the square root
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Total(f, S \ {x})
Least(A) == CHOOSE a \in A : \A b \in A : a <= b
Most(A) == CHOOSE a \in A : \A b \in A : a >= b
Sqr(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
\* <<twice the distance, twice the radius>>, both times 8 and the mass of the cell; each rounded down by less than <<1, 2>>
Measure(pos, mass, x, S) ==
  LET M  == Total(mass, S)
      C  == [c \in 1 .. 3 |-> Total([k \in S |-> mass[k] * pos[k][c]], S)]
      lo == [c \in 1 .. 3 |-> Least({pos[k][c] : k \in S})]
      hi == [c \in 1 .. 3 |-> Most({pos[k][c] : k \in S})]
  IN <<Root(256 * Sqr([c \in 1 .. 3 |-> M * x[c] - C[c]])),
       Root(64 * Sqr([c \in 1 .. 3 |-> M * (hi[c] - lo[c])])) + Root(64 * Sqr([c \in 1 .. 3 |-> M * (hi[c] + lo[c]) - 2 * C[c]]))>>
\* no contradiction with "used" and "opened"; rounding leaves a narrow zone where both are possible
MayUse(pos, mass, x, S, p, q) == LET m == Measure(pos, mass, x, S) IN q * (m[1] + 1) > p * m[2]
MayOpen(pos, mass, x, S, p, q) == LET m == Measure(pos, mass, x, S) IN q * m[1] < p * (m[2] + 2)
=============================================================================
