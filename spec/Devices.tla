------------------------------ MODULE Devices ------------------------------
(* One engine over several devices.  Every device holds a copy of every buffer, R rows of N bodies; it works on its own
   share only, so the rest of its copy may be out of date.  Vector operations cut a buffer into D flat shares, the
   derivative cuts it into D groups of bodies (one piece of every row).  Contents are abstract: an operation gives the
   destination a new content, computed from what the device finds in its own copies; STALE marks a wrong result. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS D, R, N, Bufs, MaxOps
VARIABLES copy,      \* buffer -> device -> cell -> content
          want,      \* buffer -> the content every cell should have
          ops, last
vars == <<copy, want, ops, last>>
Dev == 0 .. D - 1
Cell == 0 .. R * N - 1
Share(c) == c \div ((R * N) \div D)                  \* owner of a cell in vector operations
Group(c) == (c % N) \div (N \div D)                  \* owner of a cell in the derivative
Stale == -1
Init == /\ copy = [b \in Bufs |-> [d \in Dev |-> [c \in Cell |-> b]]] /\ want = [b \in Bufs |-> b] /\ ops = 0 /\ last = "init"
Fresh == 100 + ops
\* an elementwise operation on dst from the sources: each device its own share
Work(dst, srcs) ==
  /\ want' = [want EXCEPT ![dst] = Fresh]
  /\ copy' = [copy EXCEPT ![dst] = [d \in Dev |-> [c \in Cell |->
        IF Share(c) # d THEN copy[dst][d][c] ELSE IF \A s \in srcs : copy[s][d][c] = want[s] THEN Fresh ELSE Stale]]]
\* the host writes, or a fill: every copy completely
Write(dst) == want' = [want EXCEPT ![dst] = Fresh] /\ copy' = [copy EXCEPT ![dst] = [d \in Dev |-> [c \in Cell |-> Fresh]]]
CopyBuf(dst, src) == want' = [want EXCEPT ![dst] = want[src]] /\ copy' = [copy EXCEPT ![dst] = copy[src]]
\* pairwise exchange: groups of devices that agree grow by doubling
RECURSIVE Exchange(_, _, _)
Exchange(m, shift, own) ==
  IF shift >= D THEN m
  ELSE LET partner(d) == IF (d \div shift) % 2 = 0 THEN d + shift ELSE d - shift
           block(c) == own[c] \div shift                 \* which group of shift devices has the cell right
           next == [d \in Dev |-> [c \in Cell |-> IF block(c) = partner(d) \div shift THEN m[partner(d)][c] ELSE m[d][c]]]
       IN Exchange(next, 2 * shift, own)
Derive(f, y) ==
  LET ym == Exchange(copy[y], 1, [c \in Cell |-> Share(c)])
      good(d) == \A c \in Cell : ym[d][c] = want[y]
      fm == [d \in Dev |-> [c \in Cell |-> IF Group(c) = d THEN (IF good(d) THEN Fresh ELSE Stale) ELSE copy[f][d][c]]]
  IN /\ want' = [want EXCEPT ![f] = Fresh]
     /\ copy' = [[copy EXCEPT ![y] = ym] EXCEPT ![f] = Exchange(fm, 1, [c \in Cell |-> Group(c)])]
\* the walk that starts at tree leaves: every device fills the places of some bodies, anywhere, zeros elsewhere; the copies
\* are added up by passing them round in steps of 1, 2, 4, ...
RECURSIVE Around(_, _)
Around(m, shift) == IF shift >= D THEN m
                    ELSE Around([d \in Dev |-> [c \in Cell |-> m[d][c] \cup m[(d - shift) % D][c]]], 2 * shift)
DeriveSum(f, y, owner) ==
  LET ym == Exchange(copy[y], 1, [c \in Cell |-> Share(c)])
      good(d) == \A c \in Cell : ym[d][c] = want[y]
      part == [d \in Dev |-> [c \in Cell |-> IF owner[c % N] = d THEN {d} ELSE {}]]
      sum == Around(part, 1)
  IN /\ want' = [want EXCEPT ![f] = Fresh]
     /\ copy' = [[copy EXCEPT ![y] = ym] EXCEPT ![f] = [d \in Dev |-> [c \in Cell |->
                     IF sum[d][c] = {owner[c % N]} /\ good(owner[c % N]) THEN Fresh ELSE Stale]]]
Step(name) == ops < MaxOps /\ ops' = ops + 1 /\ last' = name
Next == \/ \E b, s \in Bufs : Step("work") /\ Work(b, {b, s})
        \/ \E b, s \in Bufs : Step("into") /\ Work(b, {s})
        \/ \E b \in Bufs : Step("write") /\ Write(b)
        \/ \E b, s \in Bufs : Step("copy") /\ CopyBuf(b, s)
        \/ \E b, s \in Bufs : b # s /\ Step("derive") /\ Derive(b, s)
        \/ \E b, s \in Bufs : b # s /\ Step("sum") /\ \E o \in [0 .. N - 1 -> Dev] : DeriveSum(b, s, o)
Spec == Init /\ [][Next]_vars
\* reading back, and the norm, take each share from its owner
Right == \A b \in Bufs : \A c \in Cell : copy[b][Share(c)][c] = want[b]
\* after a derivative every device has the whole argument and the whole result
Agree == [][last' \in {"derive", "sum"} => \A b \in Bufs : want'[b] = Fresh => \A d \in Dev, c \in Cell : copy'[b][d][c] = want'[b]]_vars

(* ---- which selections name usable devices: groups (one context each) of a platform and its devices ---- *)
CONSTANTS Platforms, DevNames, MaxGroups, MaxDevs, HavePlat, HaveDev
RECURSIVE Count(_)
Count(s) == IF s = <<>> THEN 0 ELSE Len(s[1].devs) + Count(SubSeq(s, 2, Len(s)))
Usable(s) == /\ \A g \in 1 .. Len(s) : s[g].plat \in HavePlat /\ \A k \in 1 .. Len(s[g].devs) : s[g].devs[k] \in HaveDev
             /\ Count(s) \in {1, 2, 4, 8, 16}
Groups == {[plat |-> p, devs |-> d] : p \in Platforms, d \in UNION {[1 .. k -> DevNames] : k \in 1 .. MaxDevs}}
Selections == UNION {[1 .. k -> Groups] : k \in 1 .. MaxGroups}
=============================================================================
