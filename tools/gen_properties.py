#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Streams read back exactly what was written",
 "For any body count, any frames, any part-size limit (or none), and for a writer object used for one stream after another or opened to continue an existing stream, reading the stream back yields the same number of frames in writing order, each with bit-identical positions and velocities, the same step number and the same time to 15 significant digits. The masses, colours, body count and (whole-number) box size of the run are returned too. A new part file is started exactly when the current part has already reached the limit, so no frame is ever split over two parts.",
 ["inputs", "configurations", "histories"], "all frame sequences, body counts, part limits, time/step values, writer reuse and append histories",
 "test_nbody_stream writes one 5-frame stream with one part limit and compares only the last frame; it never reads masses or colours back, never reuses a writer that has written, and never uses large offsets or steps.",
 ["nbody/nbody_data_stream.cpp", "nbody/nbody_data_stream_reader.cpp"],
 [("part rollover and index line", "nbody_data_stream::write"), ("header, colour and mass files", "nbody_data_stream::data::write_header"), ("index parsing", "nbody_data_stream_reader::load"), ("frame read", "nbody_data_stream_reader::read")],
 ["public writer and reader calls, files on disk"])
prop("C02", "A killed run leaves every acknowledged frame readable",
 "If the process dies at any instant while a stream is being written, the files left behind can be loaded as soon as one frame had been reported as written, and they hold every frame reported as written, bit-identical and in order; at most the frame in flight appears in addition, and only complete. Continuing the stream from that point and writing more frames gives the recovered frames followed by the new ones, without gap, duplicate or corrupt frame.",
 ["crash_points", "histories", "configurations"], "every point between two system calls of any writing history, for any part limit",
 "No test kills a writer; crash points cannot be sampled by running to completion.",
 ["nbody/nbody_data_stream.cpp", "nbody/nbody_data_stream_reader.cpp"],
 [("frame data reaches the file before its index line", "nbody_data_stream::write"), ("append at the end of the last indexed part", "nbody_data_stream::open")],
 ["files on disk after the kill"])
prop("C03", "A resumed run equals an uninterrupted run",
 "With any solver that keeps no data between steps (Euler, midpoint, trapeze, the explicit Runge-Kutta methods with fixed or adaptive step, extrapolation; without compensated summation), a simulation that is stopped, even killed, after any dumped frame past the start and resumed from its stream produces the same stream as one that was never stopped: the same frames, step numbers and times (to 15 digits), bit-identical positions and velocities, also when positions are wrapped into the box and when parts roll over. Where the run is stopped, how often, and the part-size limit do not matter.",
 ["histories", "configurations"], "all stop/resume histories, solvers without memory, dump intervals, part limits",
 "test_nbody_stream_restart resumes one run once, with one solver, step and part size, without box wrapping.",
 ["test/main/main.cpp", "nbody/nbody_data_stream.cpp", "nbody/nbody_data_stream_reader.cpp", "nbody/nbody_solver.cpp", "nbody/nbody_data.cpp"],
 [("resume path", "test/main/main.cpp main"), ("append mode", "nbody_data_stream::open"), ("time and step restored", "nbody_data_stream_reader::read"), ("dump schedule restart", "nbody_solver::run")],
 ["streams written by nbody-simulation"])
prop("C04", "Reading a stream depends only on the requested frame, not on history",
 "After any sequence of load, close, seek and read calls, on any streams and into any destination of the right size, a read following a successful seek to frame k returns exactly frame k with that stream's masses and colours, and consecutive reads return consecutive frames until the last one. A seek beyond the end, a read into a destination of the wrong size, or any call on a reader without a loaded stream fails without touching memory it should not and without disturbing later calls. The reported counts, step, time and box size are always those of the currently loaded stream.",
 ["histories", "inputs"], "all call sequences over several streams and destinations",
 "The tests use a fresh reader per stream and one monotone seek/read order.",
 ["nbody/nbody_data_stream_reader.cpp"],
 [("cursor", "nbody_data_stream_reader::seek / read"), ("reset", "nbody_data_stream_reader::close / load")],
 ["return values, frame content, reported counts"])
prop("C05", "I/O failures are reported, never silently swallowed",
 "Whenever the operating system refuses to create, open, read or completely store any file of a stream or of a saved body table, the call in progress reports failure, and a simulation run stops with a failure result. A frame whose write was reported as successful is on disk. A missing, short or malformed index, part, mass, colour or initial-state file makes loading or reading fail instead of delivering wrong data.",
 ["fault_sequences", "inputs"], "every file operation failing or falling short at every occurrence; all malformed index and data files",
 "Tests cover a few unopenable paths; no test makes a write fall short or fills the disk.",
 ["nbody/nbody_data_stream.cpp", "nbody/nbody_data_stream_reader.cpp", "nbody/nbody_data.cpp", "nbody/nbody_solver.cpp"],
 [("return codes", "nbody_data_stream::write / open"), ("run aborts", "nbody_solver::run"), ("save result", "nbody_data::save")],
 ["return values under injected faults"])
prop("C06", "A run dumps, checks and stops exactly on schedule",
 "For every step size, end time, dump interval and check interval, a run advances by whole steps until the time first reaches the end time and then succeeds. It writes a first frame exactly when it starts at time zero or earlier with dumping enabled, then a frame after each step at which at least the dump interval (less a tenth of a step) has passed since the last frame, and likewise computes statistics and calls every registered visitor once, in order, for the check interval; a zero interval or a missing stream disables the activity. Each frame and each check sees the bodies as they are after that very step, and when enabled, wrapping into the box happens before every step.",
 ["inputs", "configurations"], "all combinations of step, end, dump and check intervals, start times and stream failures",
 "Tests run a handful of interval combinations and check only final states.",
 ["nbody/nbody_solver.cpp"],
 [("run loop", "nbody_solver::run")],
 ["writer, visitor and engine calls"])
prop("C07", "Every solver performs the method it is named after",
 "One step of each solver, started from any state, adds to the state exactly the combination of derivative evaluations that its published method prescribes, each taken at its own point and time, for every step size and configured number of refinement iterations; consequently one step reproduces the exact solution up to the documented order (Euler 1; midpoint, Stetter midpoint and trapeze 2; classic 4; Cash-Karp, Dormand-Prince and Verner 5; Fehlberg 7; Feagin 10, 12, 14; Gauss-Legendre 6 and Lobatto 4 when refined to convergence; extrapolation twice its number of levels). Every step advances the simulation time by exactly the step and never modifies masses or any buffer other than the state and the solver's own.",
 ["inputs", "configurations", "programs"], "all right-hand sides (by enumerating the elementary differentials up to the order), steps and refinement counts",
 "Tests compare one trajectory per solver with stored results within a loose tolerance on one body configuration.",
 ["nbody/nbody_solver_euler.cpp", "nbody/nbody_solver_midpoint.cpp", "nbody/nbody_solver_midpoint_stetter.cpp", "nbody/nbody_solver_rk4.cpp", "nbody/nbody_solver_trapeze.cpp", "nbody/nbody_solver_rk_butcher.cpp", "nbody/nbody_solver_rkck.cpp", "nbody/nbody_solver_rkdp.cpp", "nbody/nbody_solver_rkdverk.cpp", "nbody/nbody_solver_rkf.cpp", "nbody/nbody_solver_rkfeagin10.cpp", "nbody/nbody_solver_rkfeagin12.cpp", "nbody/nbody_solver_rkfeagin14.cpp", "nbody/nbody_solver_rkgl.cpp", "nbody/nbody_solver_rklc.cpp", "nbody/nbody_solver_bulirsch_stoer.cpp"],
 [("step", "nbody_solver_*::advise"), ("coefficient tables", "get_a / get_b1 / get_b2 / get_c")],
 ["state after one step of a recording engine"])
prop("C08", "Adaptive steps subdivide exactly when needed and cover the step once",
 "For an embedded solver, a trial sub-interval is accepted when its error estimate is not above the threshold, or when the recursion limit is reached or the sub-interval is not longer than the minimum step; otherwise it is discarded without a trace and replaced by the configured number of equal sub-intervals. The accepted sub-intervals of a step tile the step exactly once, in order, whatever the pattern of error estimates; the step counts as one, and time advances by the full step. An extrapolating solver likewise stops at the first level (from the third on) whose error estimate is below the threshold, or at its last level, and always advances exactly one step length from the unmodified start state.",
 ["inputs", "configurations", "histories"], "all patterns of error estimates, recursion limits, subdivision counts, minimum steps and levels",
 "Tests see only the error patterns of one trajectory; the recursion limit, minimum step and nested rejections are never isolated.",
 ["nbody/nbody_solver_rk_butcher.cpp", "nbody/nbody_solver_bulirsch_stoer.cpp", "nbody/nbody_extrapolator.cpp"],
 [("accept or subdivide", "nbody_solver_rk_butcher::sub_step"), ("level loop", "nbody_solver_bulirsch_stoer::advise")],
 ["derivative evaluations and state seen by a recording engine with scripted error estimates"])
prop("C09", "Multistep solvers use the right history, and reset forgets it",
 "After its start-up phase an Adams-Bashforth solver of rank 1 to 5 advances the state by the classical combination of the derivatives at its last rank step points, each taken once and at its own age, for any number of steps; during start-up it takes exactly the starter's steps. The modified midpoint method continues its two sub-sequences from step to step. After a reset, each of these solvers behaves exactly like a newly created one started from the current state.",
 ["histories", "configurations"], "all ranks, starters, step counts and placements of resets",
 "Tests run rank 5 once, for one trajectory; reset of a used solver is exercised only inside the extrapolation solver.",
 ["nbody/nbody_solver_adams.cpp", "nbody/nbody_solver_midpoint_stetter.cpp", "nbody/nbody_solver_rk_butcher.cpp"],
 [("ring of derivatives", "nbody_solver_adams::advise"), ("u/v sequences", "nbody_solver_midpoint_stetter::advise"), ("reset", "reset()")],
 ["state after each step of a recording engine"])
prop("C10", "Extrapolation removes exactly the leading error terms",
 "Given the results of a computation for a sequence of sub-step counts whose error is a polynomial in the configured power of the step, polynomial extrapolation over n+1 results returns the exact limit whenever the polynomial has at most degree n; for an ordered sequence of sub-step counts the rational scheme returns the weighted mean of the entered results with its published alternating weights. Extrapolation uses every result up to the one entered last, the error estimate is the largest change that the newest result makes to the approximation, and a table that is filled again from the first level gives results independent of what it held before.",
 ["inputs", "histories"], "all sub-step sequences, orders, polynomial coefficients and refill histories",
 "The extrapolator test uses one function and checks convergence within a tolerance.",
 ["nbody/nbody_extrapolator.cpp"],
 [("Neville table", "nbody_extrapolator_neville::update_table"), ("weights", "nbody_extrapolator_berrut::weights")],
 ["extrapolated vectors and estimates"])
prop("C11", "All engines implement the same vector arithmetic",
 "On every engine, buffer creation, copy, fill, read, write, scaled addition (in place, into another buffer, over lists of buffers with any coefficients including all zero, and with compensated summation) and the maximum norm give the mathematically defined result for every element and change nothing but the destination, for any buffer contents and any number of bodies and threads (on OpenCL: counts that fill whole blocks). The destination may also be the single operand, and list members may repeat, but a list does not contain the destination. A missing or foreign destination or single operand, missing coefficients, or more coefficients than buffers leave all buffers unchanged. So do a force computation, a wrap, a read or a write that is given a missing or foreign buffer.",
 ["inputs", "histories", "configurations"], "all operation sequences over a set of buffers, engines, body counts, aliasing patterns",
 "Engine tests check each operation once with one pattern and size.",
 ["nbody/nbody_engine.cpp", "nbody/nbody_engine_simple.cpp", "nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_opencl.cpp"],
 [("vector operations", "fmadd, fmadd_inplace, fmaddn, fmaddn_inplace, fmaddn_corr, fmaxabs, copy_buffer, fill_buffer")],
 ["buffer contents after each operation"])
prop("C12", "Exact engines compute Newtonian gravity for every body pair exactly once",
 "For any number of bodies, any positions and positive masses (on OpenCL: counts that fill whole blocks), the derivative computed by every exact engine has each body's velocity as position rate and, as velocity rate, the sum over all other bodies of their mass times the inverse-square attraction towards them, each counted exactly once and none towards itself, with the attraction limited below the minimum distance so that coincident bodies give finite results. Loading bodies into an engine and fetching them back without a step is the identity.",
 ["inputs", "configurations"], "all body counts (also not multiples of a block), masses, positions including coincident ones, thread counts",
 "Tests compare engines with each other at one body count that is a multiple of the block size.",
 ["nbody/nbody_engine_simple.cpp", "nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_block.cpp", "nbody/nbody_engine_ah.cpp", "nbody/nbody_data.cpp"],
 [("pair loop", "fcompute"), ("kernel", "nbody_data::force")],
 ["derivative buffers"])
prop("C13", "Tree-code forces account for every body exactly once",
 "For any bodies of positive mass and any opening ratio above one, a Barnes-Hut force on a body is the sum of the attractions of a set of tree cells and single bodies that together contain every other body exactly once, where a cell is used only if its centre of mass is farther away than the ratio times the cell's radius (half the diagonal of its bounding box plus the distance of the box centre from the mass centre), and every cell acts with the total mass and mass centre of its bodies. This holds for every tree layout and traversal order and any body count including one and including coincident bodies (on OpenCL: counts that fill whole blocks); all traversal orders give the same forces, all layouts do for counts that are powers of two, and with a large enough ratio they equal direct summation.",
 ["inputs", "configurations"], "all body configurations, counts, ratios, layouts, traversals",
 "Tests use one generated galaxy of a power-of-two size and compare within tolerance.",
 ["nbody/nbody_space_tree.cpp", "nbody/nbody_space_tree.h", "nbody/nbody_space_heap.cpp", "nbody/nbody_space_heap.h", "nbody/nbody_space_heap_stackless.cpp", "nbody/nbody_space_heap_func_priv.h", "nbody/nbody_engine_simple_bh.cpp"],
 [("median build", "build"), ("opening test", "traverse"), ("stackless order", "next_up / skip_idx")],
 ["derivative buffers"])
prop("C14", "Cached force data never outlives its refresh rule",
 "When a tree engine rebuilds its tree only every so many steps, the cells' mass centres, extents and opening radii used in every force computation are always those of the current positions, and the grouping of bodies into cells is renewed at every step whose number is a multiple of the rate (at every computation for rate zero). The neighbour-scheme engine recomputes all pair forces at every multiple of its rate and at its first computation, and in between keeps only the far-field part from the last full computation while near bodies are always current.",
 ["histories", "configurations"], "all sequences of step numbers, positions and force computations, rates including 0 and 1, runs starting at any step number",
 "Tests start at step 0 and look at one trajectory per rate.",
 ["nbody/nbody_engine_simple_bh.cpp", "nbody/nbody_space_tree.cpp", "nbody/nbody_space_heap.cpp", "nbody/nbody_engine_ah.cpp"],
 [("build or rebuild", "space_subdivided_fcompute"), ("full or sparse", "nbody_engine_ah::fcompute")],
 ["derivative buffers over a history"])
prop("C15", "Splitting work over several OpenCL devices never changes results",
 "For any allowed number of devices, shared or separate contexts, and any sequence of operations, an OpenCL engine leaves in every buffer the same contents as with one device and as the host engines: forces see the positions of all bodies, results computed by one device are visible to all, and reductions cover every device's share. An unusable device selection is refused.",
 ["configurations", "histories", "schedules"], "device counts and context layouts, operation sequences, body counts and block sizes",
 "Tests use few fixed device strings and single operations.",
 ["nbody/nbody_engine_opencl.cpp", "nbody/nbody_engine_opencl_impl.h"],
 [("exchange between devices", "synchronize_f / synchronize_y / synchronize_sum"), ("device list", "select_devices")],
 ["buffers read back from the engine"])
prop("C16", "Body tables load exactly or are rejected",
 "A body table is accepted if and only if every non-empty line, after removing comments, has at least seven numeric columns and a numeric eighth if present; then the bodies are exactly those lines in order, with the mass scaled by the factor of the named unit system. A Zeno file is accepted if and only if it holds a count, the dimension three, and that many masses, positions and velocities, all numeric. Saving and loading again reproduces every position, velocity, mass and radius exactly (a negative zero counting as zero), and a save that could not be written is reported as failed; type names are matched without regard to case, and unknown ones are refused.",
 ["inputs"], "all text files over the grammar's alphabet of line kinds",
 "Tests load two good and three bad files.",
 ["nbody/nbody_data.cpp"],
 [("table parser", "nbody_data::load"), ("Zeno parser", "nbody_data::load_zeno_ascii"), ("type dispatch", "nbody_data::load_initial"), ("writer", "nbody_data::save")],
 ["return value and bodies"])
prop("C17", "Command-line settings reach the engine and solver they name",
 "Every argument of the form --name=value sets that name, the last occurrence winning, and malformed arguments change nothing. Each documented solver and engine name creates that solver or engine with exactly the given settings, unspecified ones taking the documented defaults, whatever other settings are present; unknown names of engine, solver, starter, traverse type or tree layout, an Adams starter of itself, Adams ranks outside 1 to 5 and unusable devices are refused. The simulation program honours its documented arguments (star count, box, initial state, output, part size, end time, dump and check steps).",
 ["inputs", "configurations"], "all argument lists over the documented names, values and malformed forms",
 "Tests create a few combinations and look only at the type.",
 ["nbody/nbody_arg_parser.cpp", "nbody/nbody_engines.cpp", "nbody/nbody_solvers.cpp", "test/main/main.cpp"],
 [("parser", "nbody_parse_arguments"), ("factories", "nbody_create_engine / nbody_create_solver")],
 ["created objects' behaviour"])
prop("C18", "Reported conservation errors compare the current state with the first check",
 "The first statistics computation of a run fixes the reference impulse, angular momentum, mass centre and energy of the quantities being checked; every later one reports the exact current totals and the relative deviation in percent from that reference, for the state the engine holds at that moment. Quantities not on the check list are left alone, and computing statistics never alters bodies, time or step.",
 ["histories", "inputs"], "all histories of states, check lists and statistics computations",
 "Tests only check that errors stay below a bound for one trajectory.",
 ["nbody/nbody_data.cpp", "nbody/summation.h", "nbody/summation_proxy.h"],
 [("reference capture", "nbody_data::print_statistics"), ("errors", "get_impulce_err / get_impulce_moment_err / get_energy_err")],
 ["reported totals and errors"])
prop("C19", "Wrapping into the box is periodic and complete",
 "On every engine, wrapping moves a coordinate that lies beyond the box by exactly one box width towards the box and leaves every coordinate inside or on the border, every velocity and every mass untouched, for every body and each of the three axes independently. A run with wrapping enabled wraps before every step, whatever the solver, so that a body moving less than a box width per step never strays farther than one step's motion beyond the box.",
 ["inputs", "configurations"], "all positions, box sizes, body counts, engines",
 "Tests clamp one pattern on one size.",
 ["nbody/nbody_engine_simple.cpp", "nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_opencl.cpp", "nbody/nbody_solver.cpp"],
 [("wrap", "clamp")],
 ["state buffer"])
prop("C20", "The player shows the frame its timeline names",
 "From opening on and after any sequence of start, pause, stop, forward, backward, timeline moves, setting changes and elapsed playing time, the bodies shown and the frame number named are those of the frame at the timeline position, the position stays within the stream, the view has the settings its controls show, and exactly the buttons that make sense in the current playing state are enabled. Stop and backward go to the first frame, forward to the last (ending the playing); start plays from the first frame, or goes on after a pause, evenly through the whole stream in five seconds.",
 ["histories"], "all sequences of user actions",
 "There is no test of the player.",
 ["player/wgt_nbody_player.cpp", "player/wgt_nbody_player_control.cpp"],
 [("frame change", "on_update_data"), ("buttons", "on_start / on_pause / on_stop / on_finished")],
 ["widget state, offscreen"])
prop("C21", "Generated universes are well formed and reproducible",
 "For any requested star count and any positive box sides, the generated universe consists of two galaxies of the requested size rounded up to a multiple of the block size (none for no stars), a box side apart and drifting in opposite directions, each of total mass 1000 with 0.999 of it in a black hole at its centre and the rest in equal stars, every star within its galaxy's radius (half the first side) and at the circular-orbit velocity, at right angles to its radius, around the black hole and the stars further in. The same request always gives the same bodies, whatever was held before, and generating again replaces the previous bodies completely; the box size is the largest side in whole units, at least one.",
 ["inputs", "histories"], "all star counts and box sides, repeated generation",
 "Tests generate universes of a few sizes and never look at them.",
 ["nbody/nbody_data.cpp"],
 [("generator", "nbody_data::make_universe / add_galaxy")],
 ["bodies"])
prop("C22", "A recording holds every frame once, in order",
 "Recording a stream as images or as video leaves exactly one image per frame, image n showing frame n, all of them complete when the recording is over, whatever the player was doing when it began; a cancelled recording leaves the frames up to the cancellation, and a recording without a usable destination or without an image to write leaves nothing. Afterwards the player shows the frame at its timeline position again.",
 ["histories", "schedules"], "all player states, frame counts, output kinds and cancellation points",
 "There is no test of the player.",
 ["player/wgt_nbody_player.cpp", "player/nbody_frame_compressor_image.cpp", "player/nbody_frame_compressor_opencv.cpp"],
 [("recording loop", "wgt_nbody_player::on_start_record"), ("image writer", "nbody_frame_compressor_image"), ("video writer", "nbody_frame_compressor_opencv")],
 ["written images and video, widget state"])
prop("C23", "Results do not depend on the number of threads or their schedule",
 "On every host engine (openmp, block, simple_bh, ah), the vector operations, maxima, forces, tree building and refreshing, and whole runs of any solver give bit-identical results for any number of threads, any scheduling of threads and tasks, and any repetition: no two memory accesses that OpenMP leaves unordered ever conflict.",
 ["schedules", "inputs"], "all thread counts, all schedules of threads, tasks and loop chunks, all body counts and layouts",
 "The tests compare results within a tolerance, on whatever schedule happens to occur; a lost ordering shows only under particular interleavings.",
 ["nbody/nbody_space_tree.cpp", "nbody/nbody_space_heap.cpp", "nbody/nbody_space_heap.h", "nbody/nbody_engine_openmp.cpp", "nbody/nbody_engine_block.cpp", "nbody/nbody_engine_simple_bh.cpp", "nbody/nbody_engine_ah.cpp"],
 [("tree tasks", "nbody_space_tree::node::build"), ("heap tasks", "nbody_space_heap::build_p"), ("level-wise refresh", "nbody_space_heap::rebuild"), ("parallel loops", "nbody_engine_openmp"), ("neighbour lists", "nbody_engine_ah::fcompute_full")],
 ["results of operations, forces, runs; unordered accesses"])
prop("C24", "Whatever is taken is given back once, whenever a life ends",
 "A solver and its parts take buffers from their engine and give each back exactly once. A solver can be ended at any point of its life - before it is given an engine, before its first step, after any steps and resets - without failure, and the engine then lends as many buffers as before it; while it lives it works only with buffers it holds, and repeating the same work needs no more of them. The same holds for extrapolation tables; taking several buffers at once gives all or leaves none taken. Engines (initialised or not), trees, streams, readers and runs that are ended have released all memory, files and device objects they took, and computing forces, stepping, writing and reading again and again does not make them grow. The simulation program ends with status 0 also when a resumed run has nothing left to do.",
 ["histories", "inputs"], "all solvers and settings, engines, histories of steps and resets, points at which a life ends",
 "The tests end every object after one fixed use and do not look at what is left.",
 ["nbody/nbody_solver_adams.cpp", "nbody/nbody_solver_bulirsch_stoer.cpp", "nbody/nbody_solver_rk_butcher.cpp", "nbody/nbody_extrapolator.cpp", "nbody/nbody_engine.cpp", "nbody/nbody_engine_opencl.cpp", "nbody/nbody_space_tree.cpp", "nbody/nbody_data_stream.cpp", "test/main/main.cpp"],
 [("solvers' buffers", "create_buffer, create_buffers, free_buffer, free_buffers"), ("ends", "destructors of solvers, extrapolators, engines, trees and streams")],
 ["buffers held; memory, files and device objects after repetitions; exit status"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
print(len(P), "properties")
