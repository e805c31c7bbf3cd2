-------------------------------- MODULE Omp --------------------------------
(* What a parallel region promises and leaves open: a team of threads, each   *)
(* running its implicit task, explicit tasks created by tasks, taskwait,       *)
(* barriers, single constructs and loops handed out in chunks.  A thread       *)
(* carries a stack of tasks; only the innermost can run.  A thread may take up *)
(* a waiting task where its innermost task creates or waits for tasks (then    *)
(* only children of it) or stands at a barrier (then any).                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES size, st, par, stk, singles, chunks
omp == <<size, st, par, stk, singles, chunks>>
Threads == 0 .. size - 1
Tasks == DOMAIN st
Explicit == { k \in Tasks : k >= size }
Children(p) == { k \in Explicit : par[k] = p }
Top(t) == stk[t][Len(stk[t])]
Busy(t) == stk[t] /= <<>>
Runs(t, k) == Busy(t) /\ Top(t) = k /\ st[k] = "running"
Idle == size = 0 /\ st = <<>> /\ par = <<>> /\ stk = <<>> /\ singles = {} /\ chunks = {}

Fork(n) == /\ size = 0 /\ n > 0 /\ size' = n
           /\ st' = [k \in 0 .. n - 1 |-> "running"] /\ par' = <<>> /\ stk' = [t \in 0 .. n - 1 |-> <<t>>]
           /\ singles' = {} /\ chunks' = {}
Spawn(t, k, p) == /\ Runs(t, p) /\ k \notin Tasks /\ k >= size
                  /\ st' = (k :> "created") @@ st /\ par' = (k :> p) @@ par
                  /\ UNCHANGED <<size, stk, singles, chunks>>
MayStart(t, k) == /\ Busy(t) /\ k \in Explicit /\ st[k] = "created"
                  /\ \/ st[Top(t)] = "barrier"
                     \/ st[Top(t)] \in {"waiting", "running"} /\ par[k] = Top(t)
Start(t, k) == /\ MayStart(t, k)
               /\ st' = [st EXCEPT ![k] = "running"] /\ stk' = [stk EXCEPT ![t] = Append(@, k)]
               /\ UNCHANGED <<size, par, singles, chunks>>
End(t, k) == /\ Runs(t, k) /\ k \in Explicit
             /\ st' = [st EXCEPT ![k] = "done"] /\ stk' = [stk EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
             /\ UNCHANGED <<size, par, singles, chunks>>
Wait(t, k) == /\ Runs(t, k) /\ st' = [st EXCEPT ![k] = "waiting"] /\ UNCHANGED <<size, par, stk, singles, chunks>>
MayResume(t, k) == Busy(t) /\ Top(t) = k /\ st[k] = "waiting" /\ \A c \in Children(k) : st[c] = "done"
Resume(t, k) == MayResume(t, k) /\ st' = [st EXCEPT ![k] = "running"] /\ UNCHANGED <<size, par, stk, singles, chunks>>
Arrive(t, k) == /\ Runs(t, k) /\ k = t /\ st' = [st EXCEPT ![k] = "barrier"] /\ UNCHANGED <<size, par, stk, singles, chunks>>
MayOpen == size > 0 /\ (\A t \in Threads : st[t] = "barrier") /\ \A k \in Explicit : st[k] = "done"
Open == MayOpen /\ st' = [k \in Tasks |-> IF k < size THEN "running" ELSE "done"] /\ UNCHANGED <<size, par, stk, singles, chunks>>
Leave(t, k) == /\ Runs(t, k) /\ k = t /\ st' = [st EXCEPT ![k] = "done"] /\ stk' = [stk EXCEPT ![t] = <<>>]
               /\ UNCHANGED <<size, par, singles, chunks>>
Join == /\ size > 0 /\ \A k \in Tasks : st[k] = "done"
        /\ size' = 0 /\ st' = <<>> /\ par' = <<>> /\ stk' = <<>> /\ singles' = {} /\ chunks' = {}
Single(t, k, c) == Runs(t, k) /\ c \notin singles /\ singles' = singles \cup {c} /\ UNCHANGED <<size, st, par, stk, chunks>>
Chunk(t, k, c, i) == Runs(t, k) /\ <<c, i>> \notin chunks /\ chunks' = chunks \cup {<<c, i>>} /\ UNCHANGED <<size, st, par, stk, singles>>
\* a task is on at most one stack, once, and only the innermost task of a thread runs
OmpSound == size > 0 =>
    /\ \A t \in Threads : \A i \in 1 .. Len(stk[t]) - 1 : st[stk[t][i]] \in {"waiting", "barrier", "running"}
    /\ \A t, u \in Threads : \A i \in 1 .. Len(stk[t]) : \A j \in 1 .. Len(stk[u]) : stk[t][i] = stk[u][j] => t = u /\ i = j
    /\ \A k \in Tasks : st[k] \in {"running", "waiting", "barrier"} <=> \E t \in Threads : \E i \in 1 .. Len(stk[t]) : stk[t][i] = k
=============================================================================
