#!/usr/bin/env python3
# Source of /verif/known_findings.json: genuine defects found, all repaired by "fix:" commits in /repo.
import json, os
F = [
 ("C18", "ca9d6d6", "Swamee-Jain friction coefficient: the derivative with respect to the Reynolds number had a wrong factor, so the pipe Jacobian was wrong in turbulent flow"),
 ("C06", "08eaeae", "Newton solver: a NaN residual compares false to everything and was accepted as a solution"),
 ("C16", "e5d6270", "finalize_solution evaluated cost and penalty with new_x=false, so values of the last trial point were printed for the optimum, and the Ipopt status was not handed on"),
 ("C16", "7aa9d75", "constraint violations printed for the last evaluated point, not for the solution"),
 ("C16", "3158a4c", "an optimisation that ended without optimum was reported as success (exit 0)"),
 ("C13", "629b8ac", "time grids summed up the step: drift over long horizons and large start times made the last points fail their own range checks"),
 ("C20", "931784e", "unsorted interpolation points were silently used"),
 ("C20", "602c248", "a time grid of one single point between two different times divided by zero instead of being rejected"),
 ("C13", "aa29d6f", "number of time steps was rounded up twice, giving one step too many for some spans"),
 ("C11", "dea28c3", "StochasticPQnode saved the power of the last evaluated time step, not of the saved state"),
 ("C15", "1f60c9c", "constraints that start after the first time point made the Jacobian row index run below zero"),
 ("C01", "707f0ad", "failing writes of states.json/controls.json went unnoticed, exit status 0 with truncated results"),
 ("C05", "2abbe47", "failing writes of schema files went unnoticed, exit status 0 with truncated schemas"),
 ("C04", "fa2e22e", "overwriting a JSON file truncated it first: a kill or full disk lost the content"),
 ("C16", "f7a3b04", "an optimisation without constraints failed after the solve instead of reporting its optimum"),
 ("C20", "3966309", "optimising a problem without controls ran into undefined behaviour instead of an error"),
 ("C03", "97b40ec", "an output directory name taken by a regular file ended the run instead of being skipped"),
 ("C05", "41feb4c", "schema strings put together with streams lost text silently when an allocation failed: exit 0 with damaged schemas"),
 ("C20", "2bc95b0", "missing simulation settings were read through a const [] (assertion or undefined behaviour) instead of being reported"),
 ("C20", "f583705", "boundary data points without time or values passed validation and ended in an assertion or undefined behaviour"),
 ("C20", "8fc0227", "an empty list of data points was dereferenced (assertion or undefined behaviour)"),
 ("C16", "2b4c06c", "pressure constraints at a node whose first edge is a pipe constrained (and reported) the gas density instead of the pressure"),
    ("C17", "04c9745", "a state cache asked with the same controls but a state grid (or initial state) of another length aborted or read out of bounds"),
 ("C20", "c84b793", "boundary data that miss the simulated time by up to 0.16 s at times around 1.6e9 were accepted (threshold introduced with 629b8ac was too wide)"),
 ("C24", "1821e6e", "seven helper tools truncated the problem file before writing and ignored write errors: data lost on a full disk, failing write or kill, exit status 0"),
 ("C25", "e3412c2", "extract_new_initial_condition took the time step before the requested one"),
 ("C24", "f806eed", "change_inflow, increase_pressure and sum_outflow printed an error, went on (writing partially changed values) and reported success"),
 ("C25", "6345d2f", "extract_new_initial_condition, insert_positions and the csv generators reported success for missing or truncated output"),
 ("C24", "466b001", "insert_positions silently left out the components sorted behind the last position"),
 ("C09", "c80aa58", "a given seed with entries outside of 32 bit, fractional ones or too many entries was replaced by another one without notice"),
 ("C24", "4afe33b", "change_inflow divided by an inflow of zero and replaced all inflows by null"),
 ("C20", "3225277", "pipes with a length, diameter or desired_delta_x of zero or less (or negative roughness) were simulated with senseless grids or ended in undefined behaviour"),
 ("C20", "541bfbc", "fractional or negative retries, Newton iterations and stochastic steps were silently truncated or ended in undefined behaviour, a negative cut-off band was used"),
 ("C20", "2f39985", "'optimize' or constraint and control settings of the wrong type were silently ignored or truncated"),
 ("C20", "4cee699", "two contradicting entries of one component in initial, control or bound files: one of them was silently used"),
 ("C24", "be4d7f8", "overwriting a JSON file (after fa2e22e) replaced a symbolic link by a regular file and lost the file's permissions"),
 ("C05", "b5bc605", "the generated schema of problem_data.json described a format of long ago and rejected every problem that can be simulated"),
 ("C06", "ae5f942", "the solver reported success with a non-finite state whose residual was small (an entry of the state no equation depends on)"),
]
out = [{"property": p, "key": "-", "what": w, "fixed": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in F]
json.dump({"findings": out}, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w"), indent=1)
