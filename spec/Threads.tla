------------------------------ MODULE Threads ------------------------------
(* The parallel computations of the host engines, instruction by instruction, *)
(* on a team scheduled in every way Omp allows:                                *)
(*  tree    a cell's two halves are tasks; after waiting for both, the cell    *)
(*          is derived from them (building a tree or a heap)                   *)
(*  levels  the cells of a heap are refreshed level by level, a parallel loop  *)
(*          per level, deepest first                                           *)
(*  loop    items handed out in chunks, each writing its own result from       *)
(*          inputs nobody writes (forces, vector operations)                   *)
(*  max     every thread's own maximum, then the largest of them               *)
(* The result does not depend on the schedule (Result) and no two accesses     *)
(* to one place, one of them a write, are ever unordered (NoRace).             *)
EXTENDS Omp, SequencesExt
CONSTANTS Kind,    \* "tree", "levels", "loop" or "max"
          T,       \* threads
          Depth,   \* cells 1 .. 2^Depth - 1; items 1 .. 2^Depth - 1
          Coarse,  \* other threads go on only at scheduling points (then a behaviour can be replayed exactly)
          Waits    \* a task waits for its children; without it the properties are violated
VARIABLES pc, node, mem, bad, hold, picks, region, own, nextchunk
vars == <<omp, pc, node, mem, bad, hold, picks, region, own, nextchunk>>
Cells == 1 .. 2 ^ Depth - 1
Inner(v) == 2 * v \in Cells
Regions == IF Kind = "levels" THEN Depth ELSE 1
Level(r) == Depth - r + 1                       \* region 1 refreshes the deepest level
LevelCells(r) == 2 ^ (Level(r) - 1) .. 2 ^ Level(r) - 1
\* what a thread does in a loop over m items: the whole share of a thread (static) or one item at a time
Items == Cells
Share(t, S) == { v \in S : (v - 1) % T = t }
Value(v) == (v * 5) % 7                          \* entries whose largest is looked for
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
NoValue == -1

Init == /\ Idle /\ pc = <<>> /\ node = <<>> /\ mem = [v \in Cells |-> "old"] /\ bad = FALSE /\ hold = T
        /\ picks = <<>> /\ region = 0 /\ own = [t \in 0 .. T - 1 |-> NoValue] /\ nextchunk = 1
Begin == /\ size = 0 /\ region < Regions /\ Fork(T) /\ region' = region + 1
         /\ pc' = [k \in 0 .. T - 1 |-> "in"] /\ node' = [k \in 0 .. T - 1 |-> 1] /\ nextchunk' = 1
         /\ UNCHANGED <<mem, bad, hold, picks, own>>
Finish == Join /\ pc' = <<>> /\ node' = <<>> /\ hold' = T /\ UNCHANGED <<mem, bad, picks, region, own, nextchunk>>

Set(k, p) == pc' = [pc EXCEPT ![k] = p]
Go(t) == hold' = IF Coarse THEN t ELSE T        \* keeps running
Pause == hold' = T        \* a scheduling point
Same == UNCHANGED <<node, mem, bad, region, own, nextchunk>>
New(k, v) == pc' = (k :> "body") @@ pc /\ node' = (k :> v) @@ node
NextId == Cardinality(Tasks)
\* one instruction of the innermost task of thread t
Instr(t) == LET k == Top(t) v == node[k] c == pc[k] IN
    /\ Runs(t, k)
    /\ CASE c = "in" -> /\ Set(k, CASE Kind = "tree" -> "single" [] Kind = "loop" -> "fetch" [] OTHER -> "share")
                        /\ (IF Kind \in {"tree", "loop"} THEN Pause ELSE Go(t)) /\ Same /\ UNCHANGED omp
         [] c = "single" -> /\ IF 1 \in singles THEN Set(k, "leave1") /\ UNCHANGED omp ELSE Set(k, "body") /\ Single(t, k, 1)
                            /\ Go(t) /\ Same
         [] c = "body" -> Set(k, IF Inner(v) THEN "left" ELSE "write") /\ Go(t) /\ Same /\ UNCHANGED omp
         [] c = "left" -> /\ Spawn(t, NextId, k) /\ pc' = [(NextId :> "body") @@ pc EXCEPT ![k] = "right"] /\ node' = (NextId :> 2 * v) @@ node
                          /\ Pause /\ UNCHANGED <<mem, bad, region, own, nextchunk>>
         [] c = "right" -> /\ Spawn(t, NextId, k) /\ pc' = [(NextId :> "body") @@ pc EXCEPT ![k] = "wait"] /\ node' = (NextId :> 2 * v + 1) @@ node
                           /\ Pause /\ UNCHANGED <<mem, bad, region, own, nextchunk>>
         [] c = "wait" -> /\ Same
                          /\ IF ~Waits \/ \A x \in Children(k) : st[x] = "done"
                             THEN Set(k, "readl") /\ Go(t) /\ UNCHANGED omp
                             ELSE Set(k, "resume") /\ Pause /\ Wait(t, k)
         [] c = "readl" -> Set(k, "readr") /\ bad' = (bad \/ mem[2 * v] /= "new") /\ Go(t) /\ UNCHANGED <<omp, node, mem, region, own, nextchunk>>
         [] c = "readr" -> Set(k, "write") /\ bad' = (bad \/ mem[2 * v + 1] /= "new") /\ Go(t) /\ UNCHANGED <<omp, node, mem, region, own, nextchunk>>
         [] c = "write" -> /\ mem' = [mem EXCEPT ![v] = "new"] /\ (IF Kind = "loop" THEN Pause ELSE Go(t)) /\ UNCHANGED <<omp, node, bad, region, own, nextchunk>>
                           /\ Set(k, CASE Kind = "tree" -> IF k < size THEN "leave1" ELSE "end" [] Kind = "loop" -> "fetch" [] OTHER -> "share")
         [] c = "end" -> Set(k, "over") /\ End(t, k) /\ Pause /\ Same
         \* loops: the next item of the thread's share, or of the common supply
         [] c = "fetch" -> /\ IF nextchunk \in Items
                              THEN Set(k, "write") /\ node' = [node EXCEPT ![k] = nextchunk] /\ nextchunk' = nextchunk + 1 /\ Chunk(t, k, 1, nextchunk) /\ Go(t)
                              ELSE Set(k, "leave2") /\ UNCHANGED <<omp, node, nextchunk>> /\ Go(t)
                           /\ UNCHANGED <<mem, bad, region, own>>
         [] c = "share" -> LET todo == { x \in Share(t, IF Kind = "levels" THEN LevelCells(region) ELSE Items) : x > nextchunk - 1 /\ (Kind = "levels" => mem[x] /= "new") } IN
                           /\ Go(t) /\ UNCHANGED <<omp, mem, bad, region, nextchunk>>
                           /\ IF Kind = "max"
                              THEN /\ Set(k, "combine") /\ own' = [own EXCEPT ![t] = MaxOf({NoValue} \cup { Value(x) : x \in Share(t, Items) })] /\ UNCHANGED node
                              ELSE /\ UNCHANGED own
                                   /\ IF todo = {} THEN Set(k, "leave2") /\ UNCHANGED node
                                      ELSE LET x == CHOOSE y \in todo : \A z \in todo : y <= z IN
                                           node' = [node EXCEPT ![k] = x] /\ Set(k, IF Inner(x) THEN "readl" ELSE "write")
         [] c = "combine" -> /\ nextchunk' = MaxOf({nextchunk, own[t] + 2}) /\ Set(k, "leave2") /\ Go(t)       \* atomic
                             /\ UNCHANGED <<omp, node, mem, bad, region, own>>
         \* the barrier of the single construct, then that of the region
         [] c = "leave1" -> Set(k, "leave2") /\ Arrive(t, k) /\ Pause /\ Same
         [] c = "leave2" -> Set(k, "last") /\ Arrive(t, k) /\ Pause /\ Same
         [] c = "last" -> Set(k, "over") /\ Leave(t, k) /\ Pause /\ Same
TakeUp(t, k) == Start(t, k) /\ Go(t) /\ UNCHANGED <<pc, node, mem, bad, region, own, nextchunk>>
Awake(t) == MayResume(t, Top(t)) /\ Resume(t, Top(t)) /\ Set(Top(t), "readl") /\ Go(t) /\ Same
\* the ways to go on, in the order the replaying runtime counts them: by thread; a thread's own task first, then tasks by age
Ready(t) == Busy(t) /\ (st[Top(t)] = "running" \/ MayResume(t, Top(t)))
Creating(t) == Busy(t) /\ st[Top(t)] = "running" /\ pc[Top(t)] \in {"right", "wait"}
Ways(t) == (IF Ready(t) THEN {<<t, -1>>} ELSE {})
           \cup { <<t, k>> : k \in { x \in Explicit : MayStart(t, x) /\ (st[Top(t)] = "running" => Creating(t)) /\ ~MayResume(t, Top(t)) } }
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Moves == SetToSortSeq(UNION { Ways(t) : t \in Threads }, Before)
Do(m) == IF m[2] >= 0 THEN TakeUp(m[1], m[2]) ELSE IF st[Top(m[1])] = "waiting" THEN Awake(m[1]) ELSE Instr(m[1])
Step == /\ size > 0 /\ ~MayOpen /\ \E t \in Threads : Busy(t)
        /\ IF Coarse /\ hold < T
           THEN Instr(hold) /\ UNCHANGED picks
           ELSE \E i \in 1 .. Len(Moves) : Do(Moves[i]) /\ picks' = (IF Coarse /\ Len(Moves) > 1 THEN Append(picks, i - 1) ELSE picks)
OpenUp == Open /\ UNCHANGED <<pc, node, mem, bad, hold, picks, region, own, nextchunk>>
Next == Begin \/ Finish \/ Step \/ OpenUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == size = 0 /\ region = Regions
\* the access the innermost task of a thread is about to make: <<place, is it a write>>
Access(t) == IF ~Busy(t) \/ st[Top(t)] /= "running" THEN {}
             ELSE LET k == Top(t) v == node[k] IN
                  CASE pc[k] = "readl" -> {<<2 * v, FALSE>>} [] pc[k] = "readr" -> {<<2 * v + 1, FALSE>>} [] pc[k] = "write" -> {<<v, TRUE>>} [] OTHER -> {}
NoRace == size > 0 => \A t, u \in Threads : t /= u => \A a \in Access(t) : \A b \in Access(u) : a[1] = b[1] => ~a[2] /\ ~b[2]
Result == /\ ~bad
          /\ Over => IF Kind = "max" THEN nextchunk = MaxOf({ Value(x) : x \in Items }) + 2 ELSE \A v \in Cells : mem[v] = "new"
Ends == <>Over
GPrint == Over => PrintT("@@[" \o FoldLeft(LAMBDA a, x : IF a = "" THEN ToString(x) ELSE a \o "," \o ToString(x), "", picks) \o "]")
=============================================================================
