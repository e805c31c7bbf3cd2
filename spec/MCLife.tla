------------------------------ MODULE MCLife ------------------------------
(* Users of an engine as the code builds them: buffers are taken at the first step, a part  *)
(* (starter, inner solver, table) is handed over at the start or made at the first step,    *)
(* scratch buffers may come and go within a step. The end of a life gives back part by part.*)
EXTENDS Life, Json, TLC
CONSTANTS Parts,     \* "none", "given", "late"
          Own, PartOwn, Scratch, MaxCalls, Rounds, Emitting
VARIABLES part, held, kept, partEngine, todo, next, calls, rounds, hist
mc == <<lvars, part, held, kept, partEngine, todo, next, calls, rounds, hist>>
Ids(n) == next .. next + n - 1
Init == LInit /\ part \in Parts /\ held = {} /\ kept = {} /\ partEngine = FALSE /\ todo = <<>> /\ next = 1 /\ calls = 0 /\ rounds = 0 /\ hist = <<>>
Quiet == todo = <<>>
Log(x) == IF Emitting THEN hist' = Append(hist, x) ELSE UNCHANGED hist
DoMake == Quiet /\ stage = "none" /\ Make /\ UNCHANGED <<part, held, kept, partEngine, todo, next, calls, rounds, hist>>
DoAttach == Quiet /\ Attach /\ Log("attach") /\ UNCHANGED <<part, held, kept, partEngine, todo, next, calls, rounds>>
\* what a step does, in order
Work(h, k) == << [op |-> "use", s |-> h \cup k] >> \o (IF Scratch > 0 THEN << [op |-> "scratch", s |-> {}] >> ELSE <<>>)
DoStep(kind) ==
   /\ Quiet /\ calls < MaxCalls /\ Call("step") /\ calls' = calls + 1 /\ Log(kind)
   /\ todo' = (IF held = {} THEN << [op |-> "take", s |-> {}] >> ELSE <<>>) \o (IF part # "none" /\ ~partEngine THEN << [op |-> "takepart", s |-> {}] >> ELSE <<>>) \o << [op |-> "work", s |-> {}] >>
   /\ UNCHANGED <<part, held, kept, partEngine, next, rounds>>
DoReset == Quiet /\ calls < MaxCalls /\ Call("reset") /\ calls' = calls + 1 /\ Log("reset") /\ UNCHANGED <<part, held, kept, partEngine, todo, next, rounds>>
DoRound == ~Emitting /\ Quiet /\ calls = MaxCalls /\ rounds < Rounds /\ Round /\ rounds' = rounds + 1 /\ calls' = 0 /\ UNCHANGED <<part, held, kept, partEngine, todo, next, hist>>
StepOp ==
   /\ todo # <<>>
   /\ LET o == Head(todo) IN
      CASE o.op = "take" -> Take(Ids(Own)) /\ held' = Ids(Own) /\ next' = next + Own /\ todo' = Tail(todo) /\ UNCHANGED <<kept, partEngine>>
        [] o.op = "takepart" -> Take(Ids(PartOwn)) /\ kept' = Ids(PartOwn) /\ partEngine' = TRUE /\ next' = next + PartOwn /\ todo' = Tail(todo) /\ UNCHANGED held
        [] o.op = "work" -> UNCHANGED <<lvars, held, kept, partEngine, next>> /\ todo' = Work(held, kept)
        [] o.op = "use" -> Use(o.s) /\ todo' = Tail(todo) /\ UNCHANGED <<held, kept, partEngine, next>>
        [] o.op = "scratch" -> Take(Ids(Scratch)) /\ next' = next + Scratch /\ todo' = << [op |-> "give", s |-> Ids(Scratch)] >> /\ UNCHANGED <<held, kept, partEngine>>
        [] o.op = "give" -> Give(o.s) /\ held' = held \ o.s /\ kept' = kept \ o.s /\ todo' = Tail(todo) /\ UNCHANGED <<partEngine, next>>
        [] o.op = "end" -> End /\ todo' = <<>> /\ UNCHANGED <<held, kept, partEngine, next>>
   /\ UNCHANGED <<part, calls, rounds, hist>>
\* a part gives back through its own engine, which it may never have been given: then it holds nothing
DoEnd == /\ Quiet /\ stage \in {"made", "attached"} /\ Log("end")
         /\ todo' = (IF kept # {} THEN << [op |-> "give", s |-> kept] >> ELSE <<>>) \o (IF held # {} THEN << [op |-> "give", s |-> held] >> ELSE <<>>) \o << [op |-> "end", s |-> {}] >>
         /\ UNCHANGED <<lvars, part, held, kept, partEngine, next, calls, rounds>>
Next == DoMake \/ DoAttach \/ DoStep("step") \/ DoStep("other") \/ DoReset \/ DoRound \/ StepOp \/ DoEnd
Spec == Init /\ [][Next]_mc
Held == live = held \cup kept \cup (IF todo # <<>> /\ Head(todo).op = "give" THEN Head(todo).s ELSE {})
NothingLeft == stage = "ended" => live = {}
Bounded == Cardinality(live) <= Own + PartOwn + Scratch
NeverStuck == todo # <<>> => ENABLED StepOp
OnlyWithEngine == (kept # {} => partEngine) /\ (live # {} => stage = "attached")
Emit == (Emitting /\ stage = "ended") => PrintT("@@" \o ToJson([acts |-> hist]))
===========================================================================
