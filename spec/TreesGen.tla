------------------------------ MODULE TreesGen ------------------------------
EXTENDS Trees, Json, TLC
CONSTANT Upto
VARIABLE tree
Init == \E n \in 1 .. Upto : tree = Path(n)
Next == ~Last(tree) /\ tree' = Succ(tree)
Spec == Init /\ [][Next]_tree
Emit == PrintT("@@" \o ToJson(tree))
=============================================================================
