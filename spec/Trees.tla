-------------------------------- MODULE Trees --------------------------------
(***************************************************************************)
(* Rooted trees, each once, as level sequences (Beyer and Hedetniemi): the *)
(* elementary differentials of an ordinary differential equation.  One     *)
(* step of a one-step method reproduces the exact solution up to order p   *)
(* for every right-hand side iff for each tree with at most p nodes the    *)
(* elementary weight of the method is 1/gamma(tree) (Butcher).             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt
Path(n) == [i \in 1 .. n |-> i]
Last(s) == \A i \in 2 .. Len(s) : s[i] = 2
Succ(s) == LET p == CHOOSE i \in 1 .. Len(s) : s[i] > 2 /\ \A j \in i + 1 .. Len(s) : s[j] <= 2
               q == CHOOSE i \in 1 .. p - 1 : s[i] = s[p] - 1 /\ \A j \in i + 1 .. p - 1 : s[j] # s[p] - 1
               d == p - q
               F[i \in 1 .. Len(s)] == IF i < p THEN s[i] ELSE F[i - d]
           IN [i \in 1 .. Len(s) |-> F[i]]
\* node j is a child of node i: the next ancestor level
Parent(s, j) == CHOOSE i \in 1 .. j - 1 : s[i] = s[j] - 1 /\ \A m \in i + 1 .. j - 1 : s[m] # s[j] - 1
Children(s, i) == {j \in i + 1 .. Len(s) : Parent(s, j) = i}
SubtreeSize(s, i) == 1 + Cardinality({j \in i + 1 .. Len(s) : \A m \in i + 1 .. j : s[m] > s[i]})
=============================================================================
