NA = {}
T["C01"] = ("model_checking", "TLA+ model of the stream (TLC) + replay of generated behaviours with trace validation",
  "Design checked exhaustively for two streams, few frames and several limits; the real writer and reader execute behaviours generated from the model and the recorded trace (part sizes, contents, index) must be a behaviour of it. Assumes equal body counts within one stream.")
T["C02"] = ("fault_enumeration", "TLA+ crash model (TLC) + SIGKILL at every file operation of the real writer, trace validation",
  "Every crash point of the model is explored; the real writer is killed at each of its file operations, before it and in the middle of it, and what is left must be a state of the model. Assumes handed-over bytes survive process death and one index line write is not torn by it.")
T["C04"] = ("model_checking", "TLA+ model of the reader (TLC) + replay of generated call sequences with trace validation",
  "All call sequences over two streams and several destinations are explored on the model to a fixed depth; the real reader executes generated sequences and each result must be what the model says. Streams used in the replay are small.")
T["C05"] = ("fault_enumeration", "TLA+ failure model (TLC) + each file operation of the real code refused or cut short in turn, trace validation; index grammar enumerated by TLC",
  "Every file operation of writing, reading, saving, loading and running is made to fail at each occurrence, once and permanently, and the reported results must be allowed by the model. Assumes failures are seen as return values of open, read, write and close.")
T["C06"] = ("model_checking", "TLA+ model of the run loop (TLC) + replay of enumerated schedules with trace validation",
  "The schedule is explored exhaustively in whole tenths of a step; the real run loop executes enumerated combinations with a recording engine, writer and visitors, and the call history must be a behaviour of the model.")
T["C03"] = ("model_checking", "TLA+ model of stop/resume histories (TLC) + generated histories replayed with the real program, trace validation against the uninterrupted run",
  "All stop/resume histories of a small schedule are explored on the model; generated histories (clean stops and kills, several part limits, solvers, wrapping) are run with the real nbody-simulation and every stream must be a behaviour of the model whose frames equal the uninterrupted run's. Covers solvers without memory between steps.")
T["C07"] = ("model_checking", "TLA+ specification of the methods and order conditions (TLC, rational arithmetic) + symbolic execution trace of the real solvers validated against it",
  "Each real solver is run on an engine whose vectors are symbolic linear combinations, so one run fixes the method for every right-hand side; the recorded stages must be those of the specified tableau, and order conditions are enumerated as rooted trees by TLC. The recorded known findings (rkck, rkdp, rkgl, rklc orders) are excluded by key.")
T["C08"] = ("model_checking", "TLA+ model of adaptive subdivision and extrapolation levels (TLC) + generated error patterns replayed in the real solvers, trace validation",
  "All accept/reject patterns to a bounded depth are enumerated on the model and replayed with scripted error estimates on a symbolic engine; sub-intervals, discarded work, times and the resulting state must be those of the model. Estimates that are not numbers are not considered.")
T["C09"] = ("model_checking", "TLA+ model of multistep histories and resets (TLC) + generated histories replayed on a symbolic engine, trace validation",
  "All histories of steps and resets up to a bounded length are enumerated on the model for every rank and starter; the real solvers execute them on a symbolic engine and the recorded combination of derivatives of every step must be the classical one of the model. Constant step size between start and reset.")
T["C10"] = ("model_checking", "TLA+ model of the extrapolation tables in exact rational (modular) arithmetic (TLC) + generated fill histories replayed on a symbolic engine, trace validation",
  "All fill/refill/extrapolate/estimate histories up to a bounded length are enumerated; the real extrapolators run them symbolically, so the weights of every entered result are compared with the specification exactly (modulo two primes).")

T["C11"] = ("model_checking", "TLA+ model of the vector operations over a buffer heap (TLC) + generated operation sequences replayed on every engine, trace validation",
  "All short operation sequences with every aliasing pattern and malformed call are enumerated on the model; every host engine and OpenCL (on the Oclgrind device) executes generated sequences with integer contents, so the model gives every element exactly; body counts and thread counts vary. Compensated summation is judged by its error bound.")
T["C12"] = ("model_checking", "TLA+ specification of the pair sum in exact integer arithmetic (TLC) + traces of the real engines validated against it",
  "The real engines' derivatives are probed so that each ordered pair's contribution is seen separately (mass probing), the kernel is compared with the exact value on integer geometries, and sums with the exact sum within a rounding bound; body counts around block borders, coincident bodies and several thread counts. OpenCL runs on the Oclgrind device.")

T["C13"] = ("model_checking", "TLA+ model of the tree walkers, heap shape and opening rule (TLC) + recorded forces of the real engines with their explaining cell covers, trace validation",
  "Both walkers are explored for every opening pattern of small trees; every layout and traversal computes forces for generated bodies (all counts up to 17 and block borders, clusters, lattices, coincident bodies), each explained by a cell cover to rounding accuracy; the cover must be one the specification allows, with the opening rule in whole-number arithmetic for small cases.")
T["C14"] = ("model_checking", "TLA+ model of kept and renewed force data (TLC) + generated step histories replayed on the real engines, trace validation",
  "All histories of step numbers up to a bounded length are enumerated for several rates; the real tree and neighbour-scheme engines run them with bodies moved before each computation, and the version of the kept part that explains the forces must be the model's. One set of bodies per engine.")

T["C15"] = ("model_checking", "TLA+ model of device copies, shares and exchanges (TLC) + generated operation sequences replayed on 1 to 8 OpenCL devices, trace validation",
  "The exchange patterns are explored for 2 and 4 devices with operation sequences of bounded length; the real engines run generated sequences of vector operations and derivatives on up to 8 devices in one or several contexts and every buffer must be what the model of C11 says; device selections are enumerated. Devices are instances of the Oclgrind device.")

T["C16"] = ("model_checking", "TLA+ grammar of body tables and Zeno files (TLC enumerates all short files) + every generated file loaded and saved by the real code, trace validation",
  "All files of a few lines over the line kinds (and of a few words for Zeno files) are enumerated on the model; the real loader reads generated files rendered with varying numbers, spacing and comments, and acceptance, bodies, masses and re-saved contents must be the model's. Finite decimal numbers separated by spaces or tabs.")
T["C17"] = ("model_checking", "TLA+ model of the argument parser, the settings and their defaults (TLC) + generated argument lists given to the real parser, factories and program, trace validation",
  "Argument lists and setting combinations are enumerated on the model; objects made from arguments are compared by behaviour (bitwise trajectories and refusals) with objects built directly with the settings the model prescribes, and the real program's output is compared with what its arguments ask for. Tree and neighbour-scheme settings are compared with one thread.")
T["C18"] = ("model_checking", "TLA+ model of reference capture and totals in exact integer arithmetic (TLC) + generated histories of states, check lists and computations replayed, trace validation",
  "All histories up to a bounded length are enumerated on the model; the real code runs generated ones with integer states so totals are exact, and each reported total and error must be the model's. A quantity not on the list at the first computation has reference zero.")
T["C19"] = ("model_checking", "TLA+ model of wrapping and of wrapped runs (TLC) + generated states and runs on every engine and solver, trace validation",
  "Every arrangement of positions around the borders on all axes is enumerated on the model; every host engine and OpenCL wraps generated states of several body and thread counts, and every solver runs with wrapping on and off; each recorded coordinate must be the model's. OpenCL runs on the Oclgrind device.")
T["C20"] = ("model_checking", "TLA+ model of the player's timeline, animation and buttons (TLC) + generated action sequences replayed on the real widgets offscreen, trace validation",
  "All action sequences up to a bounded length are explored on the model; the real player runs generated and long random sessions offscreen with playing time given by the harness, and position, drawn data, frame number, enabled buttons and view settings after every action must be the model's. Drawing itself (OpenGL) is not exercised: what is drawn is taken to be what the view's data object holds.")
T["C21"] = ("model_checking", "TLA+ model of requests and what they make (TLC) + generated request histories run by the real generator, trace validation with exact counts, masses, centres and boxes",
  "All short histories of requests and other changes are explored on the model; the real generator runs generated histories and many requests with counts around block borders and very unequal or tiny sides; counts, boxes, centres and masses must be the model's exactly, orbits to nine digits, and equal requests must give equal bytes.")
T["C22"] = ("model_checking", "TLA+ model of the player and of recordings (TLC) + generated recordings made by the real player offscreen, images and video read back, trace validation",
  "Recordings of many frame counts, in every playing state, with cancellations and unusable destinations are made by the real player; the images found afterwards must be the model's sequence. Drawing (OpenGL) and the file dialog are replaced by stand-ins, the drawn image telling which frame the view holds.")
T["C23"] = ("model_checking", "TLA+ model of OpenMP teams, tasks, barriers and loops running the engines' parallel programs (TLC, all interleavings) + generated schedules replayed into the real code on a stand-in OpenMP runtime that reports unordered accesses, trace validation",
  "The model shows, instruction by instruction, that the programs are free of races and end with one result. Generated schedules are replayed into the real library, whose OpenMP calls go to a stand-in runtime with one fibre per thread and task; ThreadSanitizer is told only the orderings OpenMP promises, and the scheduling events and outcomes are validated against the model. Larger computations run on the real runtime with several thread counts.")
T["C24"] = ("model_checking", "TLA+ model of lives (buffers taken at the first step, parts handed over or made late, ends at any point; TLC) + generated life histories replayed into every solver, engine and stream with buffers, memory, files and device objects counted, trace validation",
            "The engine outlives its users; an engine is initialised once; growth is told from four repetitions of the same work and of the same life; OpenCL on the Oclgrind device.")
