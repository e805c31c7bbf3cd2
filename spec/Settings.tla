------------------------------ MODULE Settings ------------------------------
(* Command-line arguments, and the solver, engine or refusal they stand for. *)
(* An argument is [form, name, value]; form "set" is --name=value, every     *)
(* other form is malformed.  A configuration is [kind, set] with set the     *)
(* settings of that kind, and only those, as text.                           *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES args, pos, param        \* the argument list, how far it was read, the settings so far
vars == <<args, pos, param>>
Empty == [x \in {} |-> ""]
Put(p, n, v) == [k \in DOMAIN p \union {n} |-> IF k = n THEN v ELSE p[k]]
Get(p, n, default) == IF n \in DOMAIN p THEN p[n] ELSE default
\* what the list says, in one go: the last proper argument of each name
Named(a) == { a[i].name : i \in { j \in 1 .. Len(a) : a[j].form = "set" } }
Last(a, n) == a[CHOOSE i \in 1 .. Len(a) : a[i].form = "set" /\ a[i].name = n /\ \A j \in i + 1 .. Len(a) : ~(a[j].form = "set" /\ a[j].name = n)].value
ParamOf(a) == [n \in Named(a) |-> Last(a, n)]
ReadArg == /\ pos <= Len(args) /\ pos' = pos + 1 /\ args' = args
           /\ param' = IF args[pos].form = "set" THEN Put(param, args[pos].name, args[pos].value) ELSE param
Reading == param = ParamOf(SubSeq(args, 1, pos - 1))

Bool(v) == IF v \in {"0", "false", ""} THEN "false" ELSE "true"
Butcher == {"rkck", "rkdp", "rkdverk", "rkf", "rkfeagin10", "rkfeagin12", "rkfeagin14", "rkgl", "rklc"}
Plain == {"euler", "midpoint", "midpoint-st", "rk4"}
Ranks == {"1", "2", "3", "4", "5"}
Steps(p) == [min_step |-> Get(p, "min_step", "1e-9"), max_step |-> Get(p, "max_step", "1e-2"), clamp |-> Bool(Get(p, "clamp", "false"))]
Refused == [kind |-> "refused", set |-> Empty, steps |-> Empty]
Config(kind, set, p) == [kind |-> kind, set |-> set, steps |-> Steps(p)]
\* solvers; an Adams solver hands all its settings on to its starter
Simple(kind, p) ==
    CASE kind \in Plain -> Config(kind, Empty, p)
      [] kind \in Butcher -> Config(kind, [error_threshold |-> Get(p, "error_threshold", "1e-4"), max_recursion |-> Get(p, "max_recursion", "8"),
            refine_steps_count |-> Get(p, "refine_steps_count", "1"), substep_subdivisions |-> Get(p, "substep_subdivisions", "8"), correction |-> Bool(Get(p, "correction", "false"))], p)
      [] kind = "trapeze" -> Config(kind, [refine_steps_count |-> Get(p, "refine_steps_count", "1")], p)
      [] kind = "bs" -> Config(kind, [max_level |-> Get(p, "max_level", "8"), error_threshold |-> Get(p, "error_threshold", "1e-11")], p)
      [] OTHER -> Refused
Solver(p) ==
    LET kind == Get(p, "solver", "") IN
    IF kind # "adams" THEN Simple(kind, p)
    ELSE LET starter == Simple(Get(p, "starter_solver", "euler"), p) IN
         IF starter.kind = "refused" \/ Get(p, "rank", "1") \notin Ranks THEN Refused
         ELSE Config("adams", [rank |-> Get(p, "rank", "1"), correction |-> Bool(Get(p, "correction", "false")), starter |-> starter], p)
\* engines; device lists are the matter of module Devices, here: those that exist
CONSTANT UsableDevices
NoSteps(c) == [kind |-> c.kind, set |-> c.set, steps |-> Empty]
Engine(p) ==
    LET kind == Get(p, "engine", "")
        tt == Get(p, "traverse_type", "cycle")
        tree == [distance_to_node_radius_ratio |-> Get(p, "distance_to_node_radius_ratio", "10"), tree_build_rate |-> Get(p, "tree_build_rate", "0"), traverse_type |-> tt]
        ocl == [device |-> Get(p, "device", "0:0"), block_size |-> Get(p, "block_size", "64")]
        lay == Get(p, "tree_layout", IF kind = "simple_bh" THEN "tree" ELSE "heap")
        put(f, n, v) == Put(f, n, v)
    IN CASE kind \in {"simple", "openmp", "block"} -> NoSteps(Config(kind, Empty, p))
         [] kind = "ah" -> NoSteps(Config(kind, [full_recompute_rate |-> Get(p, "full_recompute_rate", "1000"), max_dist |-> Get(p, "max_dist", "10"), min_force |-> Get(p, "min_force", "1e-4")], p))
         [] kind = "simple_bh" /\ tt \in {"cycle", "nested_tree"} /\ lay \in {"tree", "heap", "heap_stackless"} -> NoSteps(Config(kind, Put(tree, "tree_layout", lay), p))
         [] kind = "opencl" /\ ocl.device \in UsableDevices -> NoSteps(Config(kind, ocl, p))
         [] kind = "opencl_bh" /\ tt \in {"cycle", "nested_tree"} /\ lay \in {"heap", "heap_stackless"} /\ ocl.device \in UsableDevices ->
                NoSteps(Config(kind, Put(Put(Put(tree, "tree_layout", lay), "device", ocl.device), "block_size", ocl.block_size), p))
         [] OTHER -> Refused
Made(what, a) == IF what = "solver" THEN Solver(ParamOf(a)) ELSE Engine(ParamOf(a))
\* ---- the simulation program: numbers as the values tried mean them, times in steps of 1/64
Int(v) == CASE v = "1" -> 1 [] v = "3" -> 3 [] v = "7" -> 7 [] v = "64" -> 64 [] v = "65" -> 65 [] v = "100" -> 100 [] v = "130" -> 130 [] v = "0.5" -> 0
            [] v = "6144" -> 6144 [] v = "6145" -> 6145 [] v = "20000" -> 20000 [] v = "1000000" -> 1000000 [] OTHER -> 1073741824
Ticks(v) == CASE v = "0.015625" -> 1 [] v = "0.03125" -> 2 [] v = "0.0625" -> 4 [] v = "0.1" -> 7 [] v = "0.125" -> 8 [] v = "0.25" -> 16 [] v = "1" -> 64 [] OTHER -> 0
DumpTicks(v) == IF v = "1e-2" THEN 1 ELSE Ticks(v)          \* (a hundredth is due at every step of 1/64)
Up(n, k) == k * ((n + k - 1) \div k)
\* initial: what the initial state file holds, as type -> number of bodies (0: unreadable as that type)
Program(p, initial) ==
    LET file == "initial_state" \in DOMAIN p
        type == Get(p, "initial_type", "Zeno")
        n == IF file THEN (IF type \in DOMAIN initial THEN initial[type] ELSE 0) ELSE 2 * Up(Int(Get(p, "stars_count", "64")), 64)
        d == DumpTicks(Get(p, "dump_step", "1e-2"))
        t == Ticks(Get(p, "max_time", "1"))
        frames == [i \in 1 .. 1 + t \div d |-> (i - 1) * d]
        per == Up(Int(Get(p, "max_part_size", "default")), 48 * n) \div (48 * n)
    IN IF n = 0 \/ Solver(p).kind = "refused" \/ Engine(p).kind = "refused" THEN [ok |-> FALSE]
       ELSE [ok |-> TRUE, n |-> n, steps |-> frames, parts |-> (Len(frames) + per - 1) \div per,
             box |-> IF Int(Get(p, "box_size", "100")) < 1 THEN 1 ELSE Int(Get(p, "box_size", "100")), file |-> file, output |-> Get(p, "output", "default")]
=============================================================================
