----------------------------- MODULE MCTableaux -----------------------------
(* The published methods have the order documented for them: every order     *)
(* condition of every rooted tree, in arithmetic modulo a prime (exact       *)
(* rationals overflow TLC's integers; a false condition survives a prime     *)
(* near 46000 with probability 1/46000, and two are used).                   *)
EXTENDS Tableaux, Trees, Folds, Functions, TLC
CONSTANTS P, Root15
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE LET h == Pow(x, n \div 2) hh == (h * h) % P IN IF n % 2 = 1 THEN (hh * x) % P ELSE hh
Inv(x) == Pow(x % P, P - 2)
V(q) == ((((q[1] % P) * Inv(q[2])) % P) + ((((q[3] % P) * Inv(q[4])) % P) * Root15)) % P
Cases == {<<"euler", 0, 1, "b">>, <<"midpoint", 0, 2, "b">>, <<"midpoint-st", 0, 2, "b">>, <<"rk4", 0, 4, "b">>, <<"trapeze", 0, 2, "b">>, <<"trapeze", 1, 2, "b">>, <<"trapeze", 3, 2, "b">>,
          <<"rkck", 0, 5, "b">>, <<"rkck", 0, 4, "other">>, <<"rkdp", 0, 5, "b">>, <<"rkdp", 0, 4, "other">>,
          <<"rkdverk", 0, 5, "b">>, <<"rkdverk", 0, 6, "other">>, <<"rkf", 0, 8, "b">>, <<"rkf", 0, 7, "other">>,
          <<"rkgl", 6, 6, "b">>, <<"rkgl", 2, 2, "other">>, <<"rklc", 4, 4, "b">>, <<"rklc", 2, 2, "other">>, <<"rkgl", 4, 5, "b">>}
Val(c) == LET m == Method(c[1], c[2]) IN [a |-> [i \in 1 .. Len(m.a) |-> [j \in 1 .. Len(m.a) |-> V(m.a[i][j])]],
                                          b |-> [i \in 1 .. Len(m.a) |-> V(IF c[4] = "b" THEN m.b[i] ELSE m.other[i])]]
VARIABLES mth, num, tree, phi      \* method, its numbers, the tree, stage values of its last Len(phi) nodes
vars == <<mth, num, tree, phi>>
Init == \E c \in Cases : \E n \in 1 .. c[3] : mth = c /\ num = Val(c) /\ tree = Path(n) /\ phi = <<>>
Stgs == 1 .. Len(num.a)
Sum(f) == FoldFunction(LAMBDA x, acc : (x + acc) % P, 0, f)
\* phi[v][i]: the subtree of node v at stage i, without the edge above v; nodes from the last to the first
At(v) == phi[Len(tree) + 1 - v]
Node == LET v == Len(tree) - Len(phi)
            kids == Children(tree, v)
        IN /\ v >= 1
           /\ phi' = Append(phi, [i \in Stgs |-> FoldSet(LAMBDA c, acc : (acc * Sum([j \in Stgs |-> (num.a[i][j] * At(c)[j]) % P])) % P, 1, kids)])
           /\ UNCHANGED <<mth, num, tree>>
NextTree == Len(phi) = Len(tree) /\ ~Last(tree) /\ tree' = Succ(tree) /\ phi' = <<>> /\ UNCHANGED <<mth, num>>
Next == Node \/ NextTree
Spec == Init /\ [][Next]_vars
Weight == Sum([i \in Stgs |-> (num.b[i] * At(1)[i]) % P])
Gamma == FoldSet(LAMBDA i, acc : (acc * SubtreeSize(tree, i)) % P, 1, 1 .. Len(tree))
OrderConditions == Len(phi) = Len(tree) => (Weight * Gamma) % P = 1
=============================================================================
