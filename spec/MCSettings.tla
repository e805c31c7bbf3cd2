----------------------------- MODULE MCSettings -----------------------------
EXTENDS Settings, TLC, Json
CONSTANTS MaxArgs, MaxSet
\* ---- reading lists of arguments
Arg == [form : {"set", "other"}, name : {"solver", "rank"}, value : {"adams", "2", "rk4"}]
MInit == args \in UNION { [1 .. n -> Arg] : n \in 0 .. MaxArgs } /\ pos = 1 /\ param = Empty
MSpec == MInit /\ [][ReadArg]_vars
\* an argument of another name, or a malformed one, anywhere, leaves the solver as it is; the first of two equal names has no effect
Others == { [form |-> "other", name |-> "solver", value |-> "euler"], [form |-> "set", name |-> "engine", value |-> "ah"], [form |-> "set", name |-> "max_level", value |-> "3"] }
Insert(a, i, x) == SubSeq(a, 1, i) \o <<x>> \o SubSeq(a, i + 1, Len(a))
Unmoved == pos = 1 => \A i \in 0 .. Len(args) : \A x \in Others : Made("solver", Insert(args, i, x)) = Made("solver", args)
Override == pos = 1 => \A i \in 1 .. Len(args) : args[i].form = "set" => Made("solver", Insert(args, 0, [args[i] EXCEPT !.value = "x"])) = Made("solver", args)
\* ---- what to try: every kind with up to MaxSet settings
SolverKinds == Butcher \union Plain \union {"trapeze", "bs", "adams", "", "rk5", "Euler", "adams2", "stormer"}
Values == [ error_threshold |-> {"1e-2", "1e-7", "1e-4"}, max_recursion |-> {"1", "2"}, refine_steps_count |-> {"2", "4"}, substep_subdivisions |-> {"2", "5"},
            correction |-> {"true", "false", "1", "0"}, rank |-> {"1", "2", "3", "4", "5", "0", "6", "x", ""}, starter_solver |-> {"rk4", "rkf", "trapeze", "bs", "adams", "none", ""},
            max_level |-> {"3", "5"}, min_step |-> {"1e-3", "1e-5"}, max_step |-> {"0.015625", "0.03125"}, clamp |-> {"true", "false", "1", "0"} ]
EngineKinds == {"simple", "openmp", "block", "ah", "simple_bh", "opencl", "opencl_bh", "", "Simple", "cpu", "bh"}
EValues == [ full_recompute_rate |-> {"2", "3"}, max_dist |-> {"0.7", "2"}, min_force |-> {"5", "1000"}, distance_to_node_radius_ratio |-> {"1.5", "3"}, tree_build_rate |-> {"2", "4"},
             traverse_type |-> {"cycle", "nested_tree", "Cycle", "loop", ""}, tree_layout |-> {"tree", "heap", "heap_stackless", "list", ""}, block_size |-> {"4", "8", "16"}, device |-> {"0:0", "0:0,0", "1:0", "x"} ]
Subsets(names) == { s \in SUBSET names : Cardinality(s) <= MaxSet }
Seqs(kindname, k, vals, names) == { Put(f, kindname, k) : f \in { g \in [names -> UNION { vals[n] : n \in names }] : \A n \in names : g[n] \in vals[n] } }
AsArgs(p) == LET RECURSIVE S(_)
                 S(d) == IF d = {} THEN <<>> ELSE LET n == CHOOSE n \in d : TRUE IN <<[form |-> "set", name |-> n, value |-> p[n]]>> \o S(d \ {n})
             IN S(DOMAIN p)
Relevant(k) == DOMAIN Values
SInit(what, kindname, kinds, vals) == \E k \in kinds : \E names \in Subsets(DOMAIN vals) : \E p \in Seqs(kindname, k, vals, names) : param = [what |-> what, p |-> p] /\ args = AsArgs(p)
GInit == (SInit("solver", "solver", SolverKinds, Values) \/ SInit("engine", "engine", EngineKinds, EValues)) /\ pos = 0
GSpec == GInit /\ [][FALSE]_vars
GPrint == PrintT("@@" \o ToJson([what |-> param.what, args |-> args, cfg |-> Made(param.what, args)]))
=============================================================================
