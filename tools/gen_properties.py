#!/usr/bin/env python3
# Source of /verif/properties.jsonl.
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
S = "src/"
prop("C01", "A run that reports success has written all of its results",
 "Whenever `grazer run DIR` exits with status 0, its own output directory holds a byte-exact copy of the whole problem directory and complete, valid result files (states.json, and controls.json for an optimisation), identical to the ones a fault-free run computes from the same input. If any file or directory operation or memory allocation fails in a way that prevents this, the run reports an error and exits with a non-zero status; it never hangs. Transient effects (short reads and writes, interrupted calls) never change the results.",
 ["fault_sequences", "inputs"], "every sequence of failing, short, torn or interrupted file-system calls, full disks and failing allocations, at every point of a run, for every valid problem",
 "The test suite never links the program, never fails a write, and checks no output file on disk; the guarantee is over the fault position.",
 [S+"Grazer/commands.cpp", S+"Grazer/grazer.cpp", S+"Auxillary/Input_Output/Input_output.cpp", S+"Auxillary/aux_json/Aux_json.cpp"],
 [("reserve output files, copy the problem, write results", S+"Grazer/commands.cpp"), ("error to exit status", S+"Grazer/grazer.cpp")],
 ["exit status of main", "files below DIR/output", "stdout"])
prop("C02", "A run never touches its inputs or earlier results, wherever it is interrupted",
 "A `grazer run DIR` creates files only inside one freshly created directory below DIR/output, and every file that existed before the run keeps its content, whatever fails and at whatever operation the process is killed. A later run in the same DIR works normally, whatever an interrupted run left behind.",
 ["crash_points", "fault_sequences"], "every kill point between two file-system effects of a run, every fault sequence, every pre-existing content of DIR (earlier outputs included)",
 "No test runs the program, kills it, or compares the directory tree before and after.",
 [S+"Grazer/commands.cpp", S+"Auxillary/Input_Output/Input_output.cpp"],
 [("unique output directory", S+"Auxillary/Input_Output/Input_output.cpp"), ("exclusive creation of result files", S+"Auxillary/Input_Output/Input_output.cpp")],
 ["file tree below DIR before and after", "every mutating file-system call"])
prop("C03", "Concurrent instances never share an output location",
 "Any number of concurrently running instances working on the same directory each reserve an output directory (or, through the library's output-file reservation, an output file) of their own that did not exist before, however their operations interleave and however the wall clock stalls, jumps or runs backwards. No instance writes into, truncates or deletes the location of another, and the results of each are those it would produce alone; reservation either succeeds within its bounded number of tries or is reported as an error, and it succeeds whenever one of those tries meets a free name.",
 ["schedules", "fault_sequences"], "every interleaving of the file-system and clock operations of 2..8 instances, every clock behaviour, every set of pre-existing names",
 "The one existing test of the reservation runs sequentially with a scripted name generator; races need interleavings of several processes.",
 [S+"Auxillary/Input_Output/Input_output.cpp", S+"Grazer/commands.cpp"],
 [("mkdir as atomic reservation, retry after a pause", S+"Auxillary/Input_Output/Input_output.cpp"), ("exclusive-create open mode, retry after a pause", S+"Auxillary/Input_Output/Input_output.cpp")],
 ["returned paths", "file-system call trace", "result files of every instance"])
prop("C04", "Rewriting an input JSON never loses data",
 "`grazer schema insert-key DIR` (and the library's JSON overwrite) leaves every problem file either with its old content or with exactly its old entries plus the schema reference as first entry (key order kept), and reports success only if every file that has a schema carries the new content. If the operation fails or the process is killed at any point, the old or the new content of every file is still present in full in the problem directory. A file that is a symbolic link stays one (the file it points to is rewritten), and permissions are kept. Repeating the command is harmless and completes the job.",
 ["crash_points", "fault_sequences", "inputs"], "every kill point, every fault sequence on the file operations, any set and content of problem files",
 "The existing tests only rewrite a small file successfully; loss needs a failing write or a kill between two operations.",
 [S+"Auxillary/aux_json/Aux_json.cpp", S+"Auxillary/json_schema/schema_key_insertion.cpp"],
 [("backup by rename, write, roll back, remove backup", S+"Auxillary/aux_json/Aux_json.cpp")],
 ["exit status", "content of DIR/problem after every kill point"])
prop("C05", "Schema generation is complete or reports an error, and destroys nothing",
 "`grazer schema make-full-factory DIR` exits with status 0 only if all five schema files in DIR/schemas are complete and describe every component type with the defaults of the problem, equal to those of a fault-free run. The schemas admit the documents of every problem that can be simulated, and reject documents that lack a required entry or hold one of the wrong type. It refuses to work (leaving everything as it was) if DIR/schemas contains a directory or a file that does not belong to a schema, and never changes any file outside DIR/schemas. After a failure or a kill, a repeated run completes the job.",
 ["crash_points", "fault_sequences", "inputs"], "every kill point and fault sequence, any pre-existing content of DIR/schemas and any defaults",
 "The existing tests build schemas in memory only; nothing fails a write or populates the directory.",
 [S+"Auxillary/json_schema/schema_generation.cpp", S+"Auxillary/json_schema/make_schema.cpp"],
 [("scan for unknown files before writing", S+"Auxillary/json_schema/schema_generation.cpp")],
 ["exit status", "content of DIR/schemas"])
prop("C06", "An accepted time step solves the equations",
 "Whenever the nonlinear solver or the time evolution reports success, every returned state is finite and its residual is within the configured tolerance; the solver uses at most the configured number of iterations. Non-convergence, singular linearisations and non-finite values are reported as failure or as an exception, never as success.",
 ["fault_sequences", "inputs", "histories"], "every sequence of numerical faults (non-finite values, perturbed or singular linearisations, throwing evaluations, slow convergence) at every evaluation, every tolerance and iteration limit",
 "Existing solver tests use a handful of smooth problems that converge; no test makes an evaluation fail or return a non-finite value.",
 [S+"Newtonsolver/Newtonsolver.cpp", S+"Model/Problemlayer/Timeevolver.cpp"],
 [("residual test and damping loop", S+"Newtonsolver/Newtonsolver.cpp"), ("success flag checked per step", S+"Model/Problemlayer/Timeevolver.cpp")],
 ["returned solution record", "saved states", "exceptions"])
prop("C07", "Time stepping retries cleanly and stays on the trajectory",
 "Every attempt at a time step starts from the last accepted state and is announced to the problem exactly once, with the controls interpolated at the new time; the number of attempts per step is bounded by the configured retries. Saved states are exactly the accepted ones in time order (row 0 is the given initial state), an attempt that failed leaves no trace in later steps, and if a step fails for good the simulation ends with an exception.",
 ["fault_sequences", "histories", "inputs"], "every pattern of failing and succeeding attempts over a simulation, with and without controls, simplified or full linearisation, every retry budget and time grid",
 "Only single-step, first-try-successful evolutions are tested.",
 [S+"Model/Problemlayer/Timeevolver.cpp"],
 [("state backup and retry loop", S+"Model/Problemlayer/Timeevolver.cpp")],
 ["calls on the problem interface", "saved states"])
prop("C08", "Results depend on the problem only",
 "Two runs of the same problem (same seeds where random components are present) produce byte-identical result files, whatever the wall clock, the order in which the file system lists directories, the initial content of allocated memory, short reads, or other instances running at the same time.",
 ["schedules", "configurations", "fault_sequences"], "every environment: clock, directory order, heap content, benign I/O behaviour, co-running instances, working directory",
 "A test executes once in one environment; reads of uninitialised memory or of the clock look fine there.",
 [S+"Grazer/commands.cpp", S+"Model/Netfactory/Netfactory.cpp", S+"Model/Networkproblem/Networkproblem.cpp", S+"Newtonsolver/Newtonsolver.cpp"],
 [("components are ordered by type and id", S+"Model/Netfactory/Netfactory.cpp")],
 ["states.json", "controls.json"])
prop("C09", "Random loads are reproducible from the seed they report",
 "Every stochastic power load reports in the results the seed it used; feeding the reported seeds back reproduces the results exactly, a seed given in the input is the one that is used and reported (anything that is no list of eight 32 bit numbers is rejected), and loads without a given seed draw different seeds. The power of such a load stays within its cut-off band around the mean of each time step, without noise it follows the deterministic relaxation towards the mean, and its increments have the given noise strength. Simulations of power networks with moderate random loads yield results.",
 ["inputs", "schedules", "fault_sequences"], "every entropy source behaviour, seed, parameter set, time grid and number of retried steps",
 "The existing tests of the random load crash or use one fixed case; reproducibility is a statement about pairs of executions.",
 [S+"Model/Networkproblem/Power/StochasticPQnode.cpp", S+"Auxillary/Stochastics/Normaldistribution.cpp", S+"Auxillary/Stochastics/include/Stochastic.hpp"],
 [("seed stored in the output", S+"Model/Networkproblem/Power/StochasticPQnode.cpp"), ("cut-off in the stepping loop", S+"Auxillary/Stochastics/include/Stochastic.hpp")],
 ["states.json"])
prop("C10", "Gas results obey the gas network laws",
 "Simulations of well-posed networks yield results, and in the results of every successful run, at every time point after the first: all gas components meeting at a node agree on the pressure, flows into and out of every node balance with the prescribed boundary flow, prescribed pressures are met, and short pipes, compressors and control valves pass flow unchanged and change the pressure by exactly zero, plus or minus the control value of that time. In every pipe each cell fulfils the discretised isothermal gas equations with friction for its length, diameter and roughness (in whatever unit they were given), so that gas mass is conserved. Boundary and control values between given times are interpolated linearly.",
 ["inputs", "fault_sequences", "histories"], "every network topology and parameter set, time-dependent boundary and control data, every history of failed and retried steps",
 "No test runs a network through the whole program; component tests check single evaluations (most crash in this environment).",
 [S+"Model/Networkproblem/Gas/Gasnode.cpp", S+"Model/Networkproblem/Gas/Pipe.cpp", S+"Model/Balancelaw/Isothermaleulerequation.cpp", S+"Model/Scheme/include/Implicitboxscheme.hpp", S+"Auxillary/InterpolatingVector/InterpolatingVector.cpp"],
 [("node coupling conditions", S+"Model/Networkproblem/Gas/Gasnode.cpp"), ("box scheme", S+"Model/Scheme/include/Implicitboxscheme.hpp")],
 ["states.json"])
prop("C11", "Power results obey the power flow equations",
 "Simulations of well-posed networks yield results, and in the results of every successful run, at every time point after the first, the active and reactive power reported at every power node equal the power-flow balance of the reported voltages and angles over the node's own and its lines' admittances. Nodes with prescribed P and Q, P and V, or V and phi meet the (linearly interpolated) prescribed values, and every row of a random load reports the power of its own time point.",
 ["inputs", "fault_sequences", "histories"], "every network topology and parameter set, time-dependent boundary data, every history of failed and retried steps",
 "No test runs a network through the whole program; the single-node tests crash in this environment.",
 [S+"Model/Networkproblem/Power/Powernode.cpp", S+"Model/Networkproblem/Power/PQnode.cpp", S+"Model/Networkproblem/Power/StochasticPQnode.cpp"],
 [("P and Q of the state", S+"Model/Networkproblem/Power/Powernode.cpp")],
 ["states.json"])
prop("C12", "Gas and power sides stay coupled",
 "Simulations of well-posed networks yield results, and in the results of every successful run, at every time point after the first, each gas-power connection draws from the gas node exactly the flow whose conversion (efficiency of the direction, smoothed around zero flow) equals the active power of its power plant, and its pressure equals the node's pressure. The conversion is continuous in the flow and its value and slope agree at the borders of the smoothed region.",
 ["inputs", "fault_sequences", "histories"], "every coupled network, coefficients, both flow directions and the smoothed region between, every history of steps",
 "No test runs a coupled network through the whole program.",
 [S+"Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp", S+"Model/Networkproblem/Gaspowerconnection/ExternalPowerplant.cpp"],
 [("coupling equation", S+"Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp")],
 ["states.json"])
prop("C13", "The result rows cover exactly the requested time span",
 "Simulations of well-posed networks yield results, in which every component has one record per time point; the time points start at the start time, end at the end time, are equally spaced, and the spacing is the largest one that divides the span and does not exceed the desired step. The first record holds the given initial values interpolated to the component's own points (in the units given), and pipe records hold one value per grid point with spacing not above the desired one.",
 ["inputs", "configurations"], "every start, end and step (including very long horizons, negative times and steps longer than the span), every component and initial profile",
 "Tests use short, round time spans; drift or an off-by-one shows only for particular spans or long horizons.",
 [S+"Auxillary/Timedata/Timedata.cpp", S+"Auxillary/InterpolatingVector/InterpolatingVector.cpp", S+"Grazer/commands.cpp", S+"Model/Networkproblem/Componentclasses/SimpleStatecomponent.cpp"],
 [("time grid construction", S+"Auxillary/InterpolatingVector/InterpolatingVector.cpp")],
 ["states.json", "controls.json"])
prop("C14", "The optimiser interface has no memory",
 "Whatever sequence of objective, gradient, constraint and Jacobian requests the optimiser makes, with whatever points, repeated or interleaved, and whatever requests failed before, each successful answer equals the answer of a freshly built problem at that point (problems without random loads). A point whose simulation fails is reported as a failed evaluation, never answered with numbers of another point, and does not spoil later requests; it may go on being reported as failed while the identical point is asked for.",
 ["histories", "fault_sequences"], "every sequence of callbacks and points consistent with the callback protocol, every pattern of failing simulations and factorisations",
 "Tests call each callback in one fixed order with mocks; staleness needs particular histories.",
 [S+"IpoptWrapper/ImplicitOptimizer.cpp", S+"IpoptWrapper/Wrapper.cpp", S+"Optimization_helpers/ControlStateCache.cpp"],
 [("up-to-date flags reset by new_x", S+"IpoptWrapper/ImplicitOptimizer.cpp"), ("forwarding of new_x", S+"IpoptWrapper/Wrapper.cpp")],
 ["callback return values and outputs"],
 [("states_up_to_date / derivatives_up_to_date", "what the cached states and derivatives belong to", S+"IpoptWrapper/include/ImplicitOptimizer.hpp")])
prop("C15", "Derivatives given to the optimiser are the true ones",
 "The objective gradient and every entry of the constraint Jacobian handed to the optimiser are the derivatives of the objective and constraint values it is handed with respect to the controls, at every point where the simulation succeeds, whatever the relation of state, control and constraint time grids. The objective is the sum of cost and penalty over the state time points after the first, weighted by the trapezoidal rule without the first point, and the constraints are those of the states at the constraint times. Entries outside the announced sparsity structure are zero, every announced entry is announced once, and bounds and starting values are handed over as given in the input.",
 ["inputs", "histories"], "every problem, control point, combination of time grids, and position in a callback history",
 "Tests compare with mocks for a few aligned grids; a wrong weight shows only for particular grid relations or flow regimes.",
 [S+"IpoptWrapper/ImplicitOptimizer.cpp", S+"IpoptWrapper/ConstraintJacobian.cpp", S+"Model/Networkproblem/Networkproblem.cpp"],
 [("adjoint sweep", S+"IpoptWrapper/ImplicitOptimizer.cpp")],
 ["callback outputs"])
prop("C16", "The reported optimum is the computed optimum",
 "After an optimisation run that exits with status 0, controls.json holds controls within their bounds, states.json is exactly the simulation result for these controls, and the printed cost, penalty, objective and constraint violations are the values at these controls. This holds wherever the optimiser stopped, whichever point it evaluated last; an optimisation that ended without a solution is reported as failed, not as success.",
 ["histories", "inputs", "fault_sequences"], "every sequence of trial points before the end, every termination status, every problem",
 "No test runs an optimisation; the final point differs from the last evaluated one only in some histories.",
 [S+"IpoptWrapper/Wrapper.cpp", S+"IpoptWrapper/Adaptor.cpp", S+"Grazer/commands.cpp"],
 [("finalize_solution", S+"IpoptWrapper/Wrapper.cpp"), ("re-simulation at the solution", S+"Grazer/commands.cpp")],
 ["stdout", "controls.json", "states.json", "exit status"])
prop("C17", "Cached trajectories belong to the controls asked for",
 "Whatever sequence of requests the state cache serves, with repeated, new and failing controls, time grids and initial states, the states it hands out are exactly those a fresh simulation of the requested data gives. A failing request is reported as failed (and may be reported so again when repeated identically) and leaves the answers to all later requests for other data correct.",
 ["histories", "fault_sequences"], "every sequence of requests over a pool of controls, grids and initial states with any subset failing",
 "Existing cache tests crash in this environment and issue two or three requests.",
 [S+"Optimization_helpers/ControlStateCache.cpp"],
 [("comparison with cached and failed entry", S+"Optimization_helpers/ControlStateCache.cpp")],
 ["return value and states of the cache"])
prop("C18", "Linearisations are exact and survive in-place refresh",
 "At every state met in a simulation, the matrices the network supplies (derivatives with respect to new state, last state, controls, cost, penalty and constraints) are the true derivatives of the corresponding values. Refreshing a matrix in place inside the structure fixed at an earlier state gives the same matrix as building it anew at the current state.",
 ["histories", "inputs"], "every sequence of states (laminar, transitional, turbulent, reversed flow, both conversion directions) over which one matrix structure is reused, every network",
 "Component tests differentiate at a few fixed points with wide thresholds (one wrong derivative passes them), most crash here, and none reuses a structure.",
 [S+"Model/Networkproblem/Networkproblem.cpp", S+"Auxillary/Matrixhandler/Matrixhandler.cpp", S+"Model/Balancelaw/Isothermaleulerequation.cpp", S+"Model/Networkproblem/Gas/Gasnode.cpp", S+"Model/Networkproblem/Power/Powernode.cpp"],
 [("triplet build versus coefficient refresh", S+"Auxillary/Matrixhandler/Matrixhandler.cpp")],
 ["assembled matrices"])
prop("C19", "The order of components in the input does not matter",
 "Permuting the components in any input file, adding entries for components that are not in the topology to boundary, initial or control files (boundary entries not for a type of the topology that takes none), or splitting topology and boundary into the main file or separate files changes no result: every component gets its own boundary values, initial values, controls and bounds by its id. A component without a required boundary, initial or control entry, an edge naming an unknown node or joining a node to itself, and an unknown component type are rejected with an error.",
 ["inputs", "configurations"], "every permutation, every set of extra or missing entries, every id spelling",
 "Tests use one listing order; mixing up two components needs particular orders and ids.",
 [S+"Model/Netfactory/Netfactory.cpp", S+"Model/Networkproblem/Networkproblem.cpp", S+"Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp"],
 [("sorted merge by id", S+"Model/Netfactory/Netfactory.cpp")],
 ["states.json", "exit status"])
prop("C20", "Damaged input is rejected, never silently used",
 "If an input file is truncated at any byte, missing, unreadable, or has a required entry removed or replaced by a value of the wrong type, or two entries or a wrong number of values for a component, the run exits with a non-zero status and an error message and writes no result file. Interpolation data with unsorted points, and settings that contradict each other or make no sense (non-positive steps, lengths or diameters, negative or fractional counts, switches of another type, end before start), are rejected in the same way.",
 ["fault_sequences", "inputs"], "every truncation point, every read error, every single structural corruption of every input file",
 "Tests feed a few hand-written wrong JSONs to single functions; most crash here.",
 [S+"Auxillary/aux_json/Aux_json.cpp", S+"Auxillary/json_schema/schema_validation.cpp", S+"Auxillary/InterpolatingVector/InterpolatingVector.cpp", S+"Auxillary/Timedata/Timedata.cpp"],
 [("schema validation of every component", S+"Model/Componentfactory/include/Componentfactory.hpp")],
 ["exit status", "files below DIR/output"])
prop("C21", "A well-posed simulation makes progress",
 "From consistent initial data and smoothly changing boundary values, every simulation reaches the end time: each step converges within a small number of iterations independent of the history, transient non-convergence that ceases is overcome within the configured retries, and results are available after a bounded number of file-system operations and simulated seconds.",
 ["fault_sequences", "inputs", "histories"], "every well-posed network and boundary course, every finite pattern of transient faults within the retry budget",
 "A wrong linearisation entry or lost retry still passes tests that check values only.",
 [S+"Model/Problemlayer/Timeevolver.cpp", S+"Newtonsolver/Newtonsolver.cpp"],
 [("Newton's method with damping and retries", S+"Newtonsolver/Newtonsolver.cpp")],
 ["number of evaluations per step", "exit status"])
prop("C24", "The problem-editing tools change what they promise and lose nothing",
 "Each helper program that edits problem files (include_seed_in_boundaryvalues, remove_seed_from_boundaryvalues, change_inflow, increase_pressure, move_to_category, construct_gaspowerconnection, normalize_jsons, insert_positions) changes exactly what its description says; every other value and key, and their order, is kept. It reports success only if every file to be edited is complete, and refuses requests it cannot fulfil with a non-zero status and unchanged files. If it fails or is killed at any point, the old or the new content of every file is still there in full. A file that is a symbolic link stays one and permissions are kept.",
 ["crash_points", "fault_sequences", "inputs"], "every tool, every kill point and fault sequence on its file operations, every problem and argument",
 "No test runs a helper program.",
 ["helper_functions/include_seed_in_boundaryvalues.cpp", "helper_functions/remove_seed_from_boundaryvalues.cpp", "helper_functions/change_inflow.cpp", "helper_functions/increase_pressure.cpp",
  "helper_functions/move_to_category.cpp", "helper_functions/construct_gaspowerconnection.cpp", "helper_functions/normalize_jsons.cpp", "helper_functions/insert_positions.cpp", S+"Auxillary/aux_json/Aux_json.cpp"],
 [("read, edit, replace the file", "helper_functions/change_inflow.cpp"), ("replacement by rename", S+"Auxillary/aux_json/Aux_json.cpp")],
 ["exit status", "problem files after every kill point"])
prop("C25", "What the tools extract is what the results say, and simulations can be continued from it",
 "extract_new_initial_condition writes exactly the state that the results report at the given time (the first later time point if that time is not in the results, the last one if it lies behind them) as initial values; a simulation started from them at that time yields the rest of the uninterrupted simulation. The csv generators write exactly the reported values of the component they are asked for, and report unknown components as an error. sum_outflow prints the sum of the flows at the ends of all short pipes and changes nothing. Seeds included by include_seed_in_boundaryvalues reproduce the results they were taken from exactly. Success is reported only if the output is complete, whatever file operation fails.",
 ["fault_sequences", "histories", "inputs"], "every network, every time in, between, before and behind the time points, every component, every fault sequence",
 "No test runs a helper program; continuing a simulation is a statement about pairs of executions.",
 ["helper_functions/extract_new_initial_condition.cpp", "helper_functions/generate_printing_csv.cpp", "helper_functions/generate_control_printing_csv.cpp", "helper_functions/sum_outflow.cpp", "helper_functions/include_seed_in_boundaryvalues.cpp",
  S+"Model/Networkproblem/Networkproblem.cpp"],
 [("search of the time point", "helper_functions/extract_new_initial_condition.cpp"), ("initial values interpolated to the own grid", S+"Model/Networkproblem/Networkproblem.cpp")],
 ["files written by the tools", "states.json of the continued simulation"])
prop("C22", "Physical units convert exactly",
 "Lengths, pressures and temperatures given in any supported unit are converted to SI by the physically correct factor and offset, and unknown units are rejected.",
 ["inputs"], "every value and unit",
 "Value tables in tests cover some units only.",
 [S+"Auxillary/unit_conversion/unit_conversion.cpp"], [("unit tables", S+"Auxillary/unit_conversion/unit_conversion.cpp")], ["returned value"])
prop("C23", "Defaults are filled in without overriding given values",
 "A problem that leaves out values of components (whole properties, or parts of nested ones such as the unit of a length) for which problem_data gives a default of their type yields exactly the results of the problem with every value written out, whatever defaults are given for values nobody leaves out or for types that do not occur. Given values, zero included, always win over defaults. Defaults that cannot work (an unknown property or part of one, no object where one is needed, a needed part still missing, a used default of the wrong type) are rejected with an error and no results.",
 ["inputs", "fault_sequences"], "every network, every set of left out values and parts, every set of defaults",
 "Tests merge two or three documents; that results do not change is a statement about pairs of whole simulations.",
 [S+"Auxillary/json_schema/schema_validation.cpp", S+"Auxillary/json_schema/make_schema.cpp", S+"Model/Componentfactory/include/Componentfactory.hpp", S+"Grazer/commands.cpp"],
 [("recursive merge", S+"Auxillary/json_schema/schema_validation.cpp"), ("defaults enter the schema of a type", S+"Auxillary/json_schema/make_schema.cpp")], ["states.json", "exit status"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
