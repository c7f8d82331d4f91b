#!/usr/bin/env python3
"""The planted bugs: writes /verif/seeded.  usage: seeds.py [id...]"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mkseed
WANT = sys.argv[1:]


def seed(id, *a, **k):
    if not WANT or id in WANT:
        mkseed.seed(id, *a, **k)


# --------------------------------------------------------------------------- C01
seed("c01-copy-error-ignored", "C01", "src/Auxillary/Input_Output/Input_output.cpp",
     "    fs::copy(problem_directory, problem_files, copyOptions);\n",
     "    std::error_code copy_error;\n    fs::copy(problem_directory, problem_files, copyOptions, copy_error);\n"
     "    if (copy_error) {\n      std::cout << \"Could not copy all problem files: \" << copy_error.message()\n                << std::endl;\n    }\n",
     """
. "$(dirname "$0")/common.sh"
build_grazer
cp -r "$REPO/data/one_pipeline" "$T/p"
"$T/grazer" run "$T/p" > "$T/log1" 2>&1 || { echo "fault-free run failed"; cat "$T/log1"; exit 2; }
# a file of the problem directory that cannot be read
ln -s "$T/nowhere" "$T/p/problem/measurements.json"
if "$T/grazer" run "$T/p" > "$T/log2" 2>&1; then
  echo "exit status 0 although the problem could not be copied in full"; exit 1
fi
exit 0
""",
     "a file of the problem directory that cannot be copied (unreadable, vanished, full disk) while the run otherwise succeeds",
     "the run exits with status 0 although its output directory holds only a part of the problem")

# --------------------------------------------------------------------------- C03
seed("c03-check-then-open", "C03", "src/Auxillary/Input_Output/Input_output.cpp",
     "      fp = std::fopen(unique_name.string().c_str(), \"wx\");\n",
     "      if (not fs::exists(unique_name)) {\n        fp = std::fopen(unique_name.string().c_str(), \"w\");\n      }\n",
     """
. "$(dirname "$0")/common.sh"
build_prog "$HERE/demo.cpp" "$T/demo"
mkdir "$T/p"
"$T/demo" "$T/p"
""",
     "another instance creating the file of the same name between the existence check and the opening",
     "two instances reserve the same output file, the second one truncates it",
     extra={"demo.cpp": r'''
// A second instance creates and fills the wanted file immediately before this instance opens it.
#include "Input_output.hpp"
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <string>
#include <unistd.h>
static bool armed = false;
static std::string other;
extern "C" FILE *fopen(char const *path, char const *mode) {
  auto real = (FILE * (*)(char const *, char const *)) dlsym(RTLD_NEXT, "fopen");
  if (armed && strstr(path, "output")) {
    armed = false;
    int fd = open(path, O_WRONLY | O_CREAT | O_EXCL, 0644);
    if (fd >= 0) {
      if (write(fd, "other instance", 14) != 14) { return nullptr; }
      close(fd);
      other = path;
    }
  }
  return real(path, mode);
}
extern "C" FILE *fopen64(char const *path, char const *mode) { return fopen(path, mode); }
int main(int, char **argv) {
  armed = true;
  auto mine = io::prepare_output_file(argv[1]);
  if (other.empty()) {
    return 0; // the file was not opened through fopen: nothing to show
  }
  if (mine.string() == other) {
    puts("reserved the file of another instance");
    return 1;
  }
  char b[32] = {0};
  int fd = open(other.c_str(), O_RDONLY);
  if (read(fd, b, 31) != 14) {
    puts("truncated the file of another instance");
    return 1;
  }
  return 0;
}
'''})

# --------------------------------------------------------------------------- C12
seed("c12-smoothing-sign", "C12", "src/Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp",
     "              + 0.25 * (power2gas_q_coefficient - gas2power_q_coefficient) * rel\n                    * rel * rel);\n",
     "              + 0.25 * (power2gas_q_coefficient - gas2power_q_coefficient) * rel\n                    * rel * std::abs(rel));\n",
     """
. "$(dirname "$0")/common.sh"
build_prog "$HERE/demo.cpp" "$T/demo"
"$T/demo"
""",
     "a gas flow in the smoothed region below zero (power to gas), i.e. -60 < q < 0; the positive half is unchanged",
     "the conversion between gas flow and power is wrong for small negative flows and jumps at the border of the smoothed region",
     more=[("src/Model/Networkproblem/Gaspowerconnection/Gaspowerconnection.cpp",
            "           + (power2gas_q_coefficient - gas2power_q_coefficient) * rel * rel\n                 * rel;\n",
            "           + (power2gas_q_coefficient - gas2power_q_coefficient) * rel * rel\n                 * std::abs(rel);\n")],
     extra={"demo.cpp": r'''
#include "Gaspowerconnection.hpp"
#include "Innode.hpp"
#include "Node.hpp"
#include <cmath>
#include <cstdio>
#include <nlohmann/json.hpp>
int main() {
  std::vector<std::unique_ptr<Network::Node>> nodes;
  nodes.push_back(std::make_unique<Model::Gas::Innode>(nlohmann::json{{"id", "a"}}));
  nodes.push_back(std::make_unique<Model::Gas::Innode>(nlohmann::json{{"id", "b"}}));
  nlohmann::json top = {{"id", "g"}, {"from", "a"}, {"to", "b"}, {"gas2power_q_coeff", 0.05}, {"power2gas_q_coeff", 0.1}};
  Model::Gaspowerconnection::Gaspowerconnection gp(top, nodes);
  double k = gp.kappa;
  int bad = 0;
  for (double s : {-1.0, 1.0}) {
    double in = gp.generated_power(s * k * (1 - 1e-9)), out = gp.generated_power(s * k * (1 + 1e-9));
    if (std::abs(in - out) > 1e-5) {
      printf("jump at %g: %g %g\n", s * k, in, out);
      bad = 1;
    }
  }
  for (double q = -1.5 * k; q < 1.5 * k; q += 0.37 * k) {
    double h = 1e-5, d = (gp.generated_power(q + h) - gp.generated_power(q - h)) / (2 * h);
    if (std::abs(d - gp.dgenerated_power_dq(q)) > 1e-6) {
      printf("slope at %g: %g %g\n", q, d, gp.dgenerated_power_dq(q));
      bad = 1;
    }
  }
  return bad;
}
'''})

# --------------------------------------------------------------------------- C09
seed("c09-stale-mean", "C09", "src/Model/Networkproblem/Power/StochasticPQnode.cpp",
     "        last_Q, stochasticdata->theta_Q, boundaryvalue(new_time)[1],\n",
     "        last_Q, stochasticdata->theta_Q, boundaryvalue(last_time)[1],\n",
     """
. "$(dirname "$0")/common.sh"
build_grazer
mkdir -p "$T/p/problem"
cp "$HERE"/p_*.json "$T"
for f in problem_data topology boundary initial control; do cp "$T/p_$f.json" "$T/p/problem/$f.json"; done
"$T/grazer" run "$T/p" > "$T/log" 2>&1 || { cat "$T/log"; exit 2; }
python3 - "$T"/p/output/*/states.json <<'P'
import json, sys
s = json.load(open(sys.argv[1]))
d = [c for c in s["nodes"]["StochasticPQnode"] if c["id"] == "load"][0]["data"]
# no noise: P and Q relax towards the mean of the new time
N, th, dt = 20, 0.01, 100.0
bad = 0
for i in range(1, len(d)):
    t = d[i]["time"]
    for key, mean in (("P", -0.1 - 0.001 * t), ("Q", -0.02 - 0.0005 * t)):
        x = d[i - 1][key]
        for _ in range(N):
            x = x + th * (mean - x) * dt / N
        if abs(x - d[i][key]) > 1e-5:
            print(key, "at", t, d[i][key], "expected", x); bad = 1
sys.exit(bad)
P
""",
     "a random load whose mean reactive power changes from one time point to the next",
     "the reactive power of a random load follows the mean of the previous time point",
     extra={"p_problem_data.json": {"simulation_settings": {"use_simplified_newton": False, "maximal_number_of_newton_iterations": 50, "tolerance": 1e-9, "retries": 1,
                                                            "start_time": 0, "end_time": 500, "desired_delta_t": 100},
                                    "problem_data": {"topology_json": "topology.json", "boundary_json": "boundary.json"}},
            "p_topology.json": {"nodes": {"Vphinode": [{"id": "slack", "G": 1.0, "B": -10.0}],
                                          "StochasticPQnode": [{"id": "load", "G": 1.0, "B": -10.0, "number_of_stochastic_steps": 20, "stability_parameter": 0.5, "cut_off_factor": 5.0,
                                                                "theta_P": 0.01, "sigma_P": 0.0, "theta_Q": 0.01, "sigma_Q": 0.0}]},
                                "connections": {"Transmissionline": [{"id": "l", "from": "slack", "to": "load", "G": -1.0, "B": 10.0}]}},
            "p_boundary.json": {"nodes": {"Vphinode": [{"id": "slack", "data": [{"time": 0, "values": [1.0, 0.0]}, {"time": 500, "values": [1.0, 0.0]}]}],
                                          "StochasticPQnode": [{"id": "load", "seed": [1, 2, 3, 4, 5, 6, 7, 8],
                                                                "data": [{"time": 0, "values": [-0.1, -0.02]}, {"time": 500, "values": [-0.6, -0.27]}]}]}, "connections": {}},
            "p_initial.json": {"nodes": {"Vphinode": [{"id": "slack", "data": [{"x": 0, "values": [1.0, 0.0]}]}],
                                         "StochasticPQnode": [{"id": "load", "data": [{"x": 0, "values": [1.0, 0.0]}]}]}},
            "p_control.json": {}})


def opt_hpp():
    return open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_extra", "optdemo.hpp")).read()


RUN_DEMO = """
. "$(dirname "$0")/common.sh"
build_prog "$HERE/demo.cpp" "$T/demo"
"$T/demo" > "$T/log" 2>&1
rc=$?
tail -5 "$T/log"
exit $rc
"""

IMPL = "src/IpoptWrapper/ImplicitOptimizer.cpp"
CACHE = "src/Optimization_helpers/ControlStateCache.cpp"
EVOLVER = "src/Model/Problemlayer/Timeevolver.cpp"
ISO = "src/Model/Balancelaw/Isothermaleulerequation.cpp"

# --------------------------------------------------------------------------- C14
seed("c14-half-done-derivatives", "C14", IMPL,
     "      objective_gradient.setZero();\n      constraint_jacobian.setZero();\n",
     "      objective_gradient.setZero();\n      constraint_jacobian.setZero();\n      derivatives_up_to_date = true;\n",
     RUN_DEMO,
     "the linearisation fails in the middle of the backward sweep and the optimiser asks again for a derivative at the same point",
     "the gradient and Jacobian of a sweep that was given up are handed out as the derivatives of the point",
     more=[(IMPL, "    derivatives_up_to_date = true;\n    return true;\n  }\n", "    return true;\n  }\n")],
     extra={"optdemo.hpp": opt_hpp(), "demo.cpp": r'''
#include "optdemo.hpp"
int main() {
  std::vector<double> T{0, .5, 1, 1.5, 2}, U{0, 1, 2}, K{1, 2};
  Eigen::VectorXd x = vec({.3, -.4, .8}), want, have;
  Optimisation fresh(T, U, K), o(T, U, K);
  if (!fresh.grad(x, true, want)) { return 2; }
  int calls = 0;
  o.hooks.dlast = [&](C) {
    if (++calls == 4) { throw std::runtime_error("cannot be linearised just now"); }
  };
  bool ok = false;
  try {
    ok = o.grad(x, true, have);
  } catch (std::exception &) {}
  if (ok && !have.isApprox(want, 1e-9)) { return puts("wrong gradient"), 1; }
  ok = o.grad(x, false, have);
  if (ok && !have.isApprox(want, 1e-9)) { return puts("gradient of half a sweep"), 1; }
  return 0;
}
'''})

# --------------------------------------------------------------------------- C15
seed("c15-control-of-last-time", "C15", IMPL,
     "    problem->d_evaluate_d_control(\n        control_handler, last_time, new_time, states(last_time),\n        states(new_time), controls(new_time));\n\n"
     "    Aux::Coeffrefhandler<Aux::Transposed> new_handler(dE_dnew_transposed);\n",
     "    problem->d_evaluate_d_control(\n        control_handler, last_time, new_time, states(last_time),\n        states(new_time), controls(last_time));\n\n"
     "    Aux::Coeffrefhandler<Aux::Transposed> new_handler(dE_dnew_transposed);\n",
     RUN_DEMO,
     "equations that are not linear in the controls, and controls that change over time",
     "the derivative with respect to the controls is taken at the controls of the last time point",
     extra={"optdemo.hpp": opt_hpp(), "demo.cpp": r'''
#include "optdemo.hpp"
int main() {
  Optimisation o({0, .5, 1, 1.5, 2}, {0, 1, 2}, {1, 2});
  Eigen::VectorXd x = vec({.3, -.4, .8}), g;
  if (!o.grad(x, true, g)) { return 2; }
  for (int i = 0; i != 3; ++i) {
    Eigen::VectorXd a = x, b = x;
    double h = 1e-5, fa, fb;
    a[i] += h, b[i] -= h;
    if (!o.f(a, true, fa) || !o.f(b, true, fb)) { return 2; }
    if (std::abs((fa - fb) / (2 * h) - g[i]) > 1e-6) { return printf("entry %d: %g, true %g\n", i, g[i], (fa - fb) / (2 * h)), 1; }
  }
  return 0;
}
'''})

# --------------------------------------------------------------------------- C17
seed("c17-key-before-states", "C17", CACHE,
     "    } else {\n      Aux::InterpolatingVector states(state_timepoints, initial_state.size());\n",
     "    } else {\n      cache.first = Cacheentry{controls, state_timepoints, initial_state};\n      Aux::InterpolatingVector states(state_timepoints, initial_state.size());\n",
     RUN_DEMO,
     "one that fails, a refresh of the cache with other controls that fails as well, then the first failing one again",
     "the cache hands out the states of other controls for controls whose simulation fails",
     more=[(CACHE, "      cache = std::make_pair(\n          Cacheentry{controls, state_timepoints, initial_state},\n          std::move(states));\n      return &cache.second;\n",
            "      cache.second = std::move(states);\n      return &cache.second;\n")],
     extra={"optdemo.hpp": opt_hpp(), "demo.cpp": r'''
#include "optdemo.hpp"
int main() {
  Hooks hooks;
  hooks.evaluated = [](R o, double, double, C, C, C u) {
    if (u[0] > 1) { o[0] = std::nan(""); }
  };
  Mock_OptimizableObject problem(hooks);
  Optimization::ControlStateCache cache(make_evolver());
  std::vector<double> U{0, 2};
  auto T = vec({0, 1, 2});
  auto x0 = vec({.3, .2});
  auto good = constant(U, .5), bad = constant(U, 2), worse = constant(U, 3);
  if (!cache.check_and_supply_states(problem, good, T, x0)) { return 2; }
  if (cache.check_and_supply_states(problem, bad, T, x0)) { return puts("states of a failing simulation"), 1; }
  if (cache.refresh_cache(problem, worse, T, x0)) { return puts("a failing simulation is reported as success"), 1; }
  if (cache.check_and_supply_states(problem, bad, T, x0)) { return puts("states of other controls"), 1; }
  auto s = cache.check_and_supply_states(problem, good, T, x0);
  return s ? 0 : (puts("refused"), 1);
}
'''})

# --------------------------------------------------------------------------- C18
seed("c18-backward-flow", "C18", ISO,
     "    dRe_dq = diameter / (Area * eta) * rho_0 * Aux::dabs_dx(q);\n",
     "    dRe_dq = coeff_of_Reynolds(diameter);\n",
     RUN_DEMO,
     "a flow against the direction of the pipe that is not laminar",
     "the derivative of the friction has a wrong sign in the part of the friction coefficient for flows against the direction of the pipe",
     extra={"demo.cpp": r'''
#include "Isothermaleulerequation.hpp"
#include <cmath>
#include <cstdio>
#include <nlohmann/json.hpp>
int main() {
  nlohmann::json j = {{"id", "p"}, {"diameter", {{"value", 0.5}, {"unit", "m"}}}, {"roughness", {{"value", 1e-5}, {"unit", "m"}}}};
  Model::Balancelaw::Isothermaleulerequation e(j);
  for (double q : {3.0, 0.012, 0.001, -0.001, -0.012, -3.0}) {
    Eigen::Vector2d s(60, q), a = s, b = s;
    double h = 1e-4 * std::abs(q);
    a[1] += h, b[1] -= h;
    double want = (e.source(a)[1] - e.source(b)[1]) / (2 * h), have = e.dsource_dstate(s)(1, 1);
    if (std::abs(want - have) > 1e-5 * std::abs(want)) { return printf("q=%g: %g, true %g\n", q, have, want), 1; }
  }
  return 0;
}
'''})

# --------------------------------------------------------------------------- C06
seed("c06-good-enough", "C06", EVOLVER,
     "      if (not solstruct.success) {\n        gthrow({\"Failed timestep irrevocably!\", std::to_string(new_time)});\n      }\n      saved_states",
     "      saved_states",
     RUN_DEMO,
     "a step that converges too slowly for the configured number of iterations, whose last residual is close to the tolerance",
     "a state whose residual exceeds the tolerance is accepted and saved",
     more=[(EVOLVER, "      if (retry > 2 * retries) {\n        gthrow({\"Failed timestep irrevocably!\", std::to_string(new_time)});\n      }\n",
            "      if (retry > 2 * retries) {\n        if (solstruct.residual < 1e-3 and solstruct.used_iterations > 0) {\n          std::cout << \"accepting residual \" << solstruct.residual << std::endl;\n          break;\n        }\n"
            "        gthrow({\"Failed timestep irrevocably!\", std::to_string(new_time)});\n      }\n")],
     extra={"optdemo.hpp": opt_hpp(), "demo.cpp": r'''
#include "optdemo.hpp"
int main() {
  Hooks hooks;
  // a residual that never falls below 1e-6
  hooks.evaluated = [](R o, double, double, C, C, C) {
    if (o.norm() < 1e-6) { o[0] = 1e-6; }
  };
  Mock_OptimizableObject problem(hooks);
  auto T = vec({0, 1, 2});
  Aux::InterpolatingVector states(T, 2);
  auto x0 = vec({.3, .2});
  try {
    make_evolver(1)->simulate(x0, constant({0, 2}, .5), problem, states);
  } catch (std::exception &) { return 0; }
  puts("a residual of 1e-6 was accepted at a tolerance of 1e-12");
  return 1;
}
'''})

# --------------------------------------------------------------------------- C07
seed("c07-retry-goes-on", "C07", EVOLVER,
     "      new_state = new_state_backup;\n      problem.prepare_timestep(",
     "      problem.prepare_timestep(",
     RUN_DEMO,
     "a step whose first attempt does not converge and is repeated",
     "the repeated attempt starts from the state where the failed one got stuck instead of the last accepted one",
     extra={"optdemo.hpp": opt_hpp(), "demo.cpp": r'''
#include "optdemo.hpp"
int main() {
  Hooks hooks;
  bool first = false, compare = false, bad = false;
  int attempt = 0;
  hooks.prepare = [&](double, double b, C, C) {
    attempt = b > 1.5 ? attempt + 1 : 0;
    first = true;
  };
  hooks.evaluated = [&](R o, double, double b, C l, C x, C) {
    if (first && (x - l).norm() != 0) { bad = true; }
    first = false;
    if (attempt == 1 && o.norm() < 1e-3) { o[0] = 1e-3; } // the first attempt for the second step gets stuck
  };
  Mock_OptimizableObject problem(hooks);
  auto T = vec({0, 1, 2});
  Aux::InterpolatingVector states(T, 2);
  auto x0 = vec({.3, .2});
  try {
    make_evolver(3)->simulate(x0, constant({0, 2}, .5), problem, states);
  } catch (std::exception &) { return 0; }
  if (bad) { puts("an attempt did not start from the last accepted state"); }
  return bad;
}
'''})

# --------------------------------------------------------------------------- C21
seed("c21-lost-retries", "C21", EVOLVER,
     "    if (use_simplified_newton) {\n      retry = 0;\n    } else {\n      retry = retries;\n    }\n",
     "    if (not use_simplified_newton) {\n      // no simplified attempts to make:\n      retry = 2 * retries;\n    }\n",
     RUN_DEMO,
     "more than two failing attempts before a passing fault ceases, with several retries configured and the simplified Newton method off",
     "only one of the configured retries is made",
     extra={"optdemo.hpp": opt_hpp(), "demo.cpp": r'''
#include "optdemo.hpp"
int main() {
  Hooks hooks;
  int attempt = 0;
  hooks.prepare = [&](double, double, C, C) { ++attempt; };
  hooks.evaluated = [&](R o, double, double, C, C, C) {
    if (attempt <= 3 && o.norm() < 1e-3) { o[0] = 1e-3; } // gets stuck three times
  };
  Mock_OptimizableObject problem(hooks);
  auto T = vec({0, 1});
  Aux::InterpolatingVector states(T, 2);
  auto x0 = vec({.3, .2});
  try {
    make_evolver(4)->simulate(x0, constant({0, 2}, .5), problem, states);
  } catch (std::exception &e) {
    puts("gave up although retries were left");
    return 1;
  }
  return 0;
}
'''})

# --------------------------------------------------------------------------- second series
COMMANDS = "src/Grazer/commands.cpp"
seed("c03-tidy-leftovers", "C03", COMMANDS,
     "    auto output_directory = io::unique_output_directory(outer_output_directory);\n",
     """    // tidy up what interrupted runs left behind:
    for (auto const &leftover :
         std::filesystem::directory_iterator(outer_output_directory)) {
      if (leftover.is_directory()
          and std::filesystem::is_empty(leftover.path())) {
        std::error_code ignored;
        std::filesystem::remove(leftover.path(), ignored);
      }
    }
    auto output_directory
        = io::unique_output_directory(outer_output_directory);
""",
     """
. "$(dirname "$0")/common.sh"
build_grazer
cp -r "$REPO/data/one_pipeline" "$T/p"
rm -rf "$T/p/output"
mkdir "$T/p/output" "$T/p/output/reserved_by_another_instance"
"$T/grazer" run "$T/p" > "$T/log" 2>&1 || { echo "the run failed"; cat "$T/log"; exit 2; }
[ -d "$T/p/output/reserved_by_another_instance" ] || { echo "the directory another instance had reserved is gone"; exit 1; }
exit 0
""",
     "another instance that has reserved its output directory and is still computing (its directory is empty until the results are written)",
     "a starting instance deletes the output directory that a running one reserved; that one fails in the end and its results are lost")

seed("c02-clean-up-too-much", "C02", COMMANDS,
     "        o << \"Printing to files failed with error message:\"\n",
     "        // incomplete output is worthless:\n        std::filesystem::remove_all(output_directory.parent_path());\n"
     "        o << \"Printing to files failed with error message:\"\n",
     """
. "$(dirname "$0")/common.sh"
build_grazer
cp -r "$REPO/data/one_pipeline" "$T/p"
"$T/grazer" run "$T/p" > "$T/log1" 2>&1 || { echo "fault-free run failed"; cat "$T/log1"; exit 2; }
before=$(cd "$T/p/output" && find . -type f | sort)
[ -n "$before" ] || { echo "no results"; exit 2; }
ln -s "$T/nowhere" "$T/p/problem/measurements.json"
"$T/grazer" run "$T/p" > "$T/log2" 2>&1
(cd "$T/p/output" 2>/dev/null && for f in $before; do [ -f "$f" ] || exit 1; done) || { echo "the results of the earlier run are gone"; exit 1; }
exit 0
""",
     "a run in a directory with earlier results, in which copying the problem or writing the results fails",
     "the results of all earlier runs are deleted")

seed("c01-hard-links", "C01", "src/Auxillary/Input_Output/Input_output.cpp",
     "    const auto copyOptions = fs::copy_options::recursive;\n",
     "    // no need to store the same content twice:\n    const auto copyOptions\n        = fs::copy_options::recursive | fs::copy_options::create_hard_links;\n",
     """
. "$(dirname "$0")/common.sh"
build_grazer
cp -r "$REPO/data/one_pipeline" "$T/p"
rm -rf "$T/p/output"
"$T/grazer" run "$T/p" > "$T/log" 2>&1 || { echo "the run failed"; cat "$T/log"; exit 2; }
cp -r "$T/p/problem" "$T/as_it_was"
echo " " >> "$T/p/problem/initial.json"
diff -r "$T/as_it_was" "$T"/p/output/*/problem > /dev/null || { echo "the archived problem changed together with the original"; exit 1; }
exit 0
""",
     "an edit of a problem file in place after the run",
     "the archived problem of a finished run changes with the original, so it no longer shows what was computed")

seed("c04-damaged-json", "C04", "src/Auxillary/aux_json/Aux_json.cpp",
     """    nlohmann::ordered_json json_object;
    if (not std::filesystem::exists(file_path)) {
      gthrow(
          {"The file \\n", std::filesystem::absolute(file_path).string(),
           "\\n does not exist!"});
    }
    try {
      std::ifstream jsonfilestream(file_path);
      jsonfilestream >> json_object;
    } catch (...) {
""",
     """    nlohmann::ordered_json json_object;
    if (not std::filesystem::exists(file_path)) {
      gthrow(
          {"The file \\n", std::filesystem::absolute(file_path).string(),
           "\\n does not exist!"});
    }
    try {
      std::ifstream jsonfilestream(file_path);
      // a file may well be empty, when it is just being set up:
      json_object
          = nlohmann::ordered_json::parse(jsonfilestream, nullptr, false);
      if (json_object.is_discarded()) {
        json_object = nlohmann::ordered_json::object();
      }
    } catch (...) {
""",
     """
. "$(dirname "$0")/common.sh"
build_grazer
cp -r "$REPO/data/one_pipeline" "$T/p"
"$T/grazer" schema make-full-factory "$T/p" > "$T/log" 2>&1 || { cat "$T/log"; exit 2; }
"$T/grazer" schema insert-key "$T/p" > "$T/log" 2>&1 || { echo "insert-key failed"; cat "$T/log"; exit 2; }
# somebody forgot a brace
size=$(stat -c %s "$T/p/problem/topology.json")
truncate -s $((size - 3)) "$T/p/problem/topology.json"
cp "$T/p/problem/topology.json" "$T/old"
"$T/grazer" schema insert-key "$T/p" > "$T/log" 2>&1
cmp -s "$T/old" "$T/p/problem/topology.json" || { echo "the content of the file is gone"; exit 1; }
exit 0
""",
     "a problem file with a syntax error (or a read error half way) when the schema keys are inserted",
     "the file is replaced by one that holds nothing but the schema reference; its content is lost")

seed("c05-dir-named-like-schema", "C05", "src/Auxillary/json_schema/schema_generation.cpp",
     "      if (std::filesystem::is_directory(file)) {\n",
     "      if (std::filesystem::is_directory(file)\n          and not key_from_map_is_prefix(schemas, filename)) {\n",
     """
. "$(dirname "$0")/common.sh"
build_grazer
cp -r "$REPO/data/one_pipeline" "$T/p"
rm -rf "$T/p/schemas"
"$T/grazer" schema make-full-factory "$T/p" > "$T/log" 2>&1 || { echo "fault-free run failed"; cat "$T/log"; exit 2; }
echo mine > "$T/p/schemas/initial_schema.json"
mkdir "$T/p/schemas/topology_variants"
if "$T/grazer" schema make-full-factory "$T/p" > "$T/log" 2>&1; then
  echo "worked in a directory that holds a directory"; exit 1
fi
[ "$(cat "$T/p/schemas/initial_schema.json")" = mine ] || { echo "overwrote a file although it refused to work"; exit 1; }
exit 0
""",
     "a directory below schemas whose name begins like that of a schema",
     "the schema generation overwrites files in a directory it should refuse to work in")

seed("c08-edge-order", "C08", "src/Model/Network/Node.cpp",
     "    attached_edges->starting_edges.push_back(to_attach);\n    return true;\n",
     "    // sorted, so that an edge can be found fast:\n    auto &edges = attached_edges->starting_edges;\n"
     "    edges.insert(\n        std::upper_bound(edges.begin(), edges.end(), to_attach), to_attach);\n    return true;\n",
     """
. "$(dirname "$0")/common.sh"
build_prog "$HERE/demo.cpp" "$T/demo"
for order in up down; do
  cp -r "$REPO/data/base" "$T/$order"
  rm -rf "$T/$order/output"
  "$T/demo" "$T/$order" $order > "$T/log" 2>&1 || { echo "the run failed"; tail -5 "$T/log"; exit 2; }
done
cmp "$T"/up/output/*/states.json "$T"/down/output/*/states.json || { echo "the results depend on the addresses of the components"; exit 1; }
exit 0
""",
     "a memory allocator that hands out descending (or mixed) addresses and a node with at least three edges",
     "the order of summation at a node, and with it the last digits of the results, depends on the addresses of the edges",
     more=[("src/Model/Network/Node.cpp", "#include <iostream>\n", "#include <algorithm>\n#include <iostream>\n")],
     extra={"demo.cpp": r'''
// One run of a problem, with an allocator that hands out ascending or descending addresses.
#include "commands.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
static size_t const SIZE = size_t(6) << 30;
static char *pool = nullptr, *low = nullptr, *high = nullptr;
static bool down = false;
static void *get(size_t n) {
  if (!pool) {
    pool = (char *)mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (pool == MAP_FAILED) { abort(); }
    low = pool, high = pool + SIZE;
  }
  if (n > 4000) { return malloc(n); }
  n = (n + 31) & ~size_t(15);
  if (high - low < (long)n + 4096) { return malloc(n); }
  if (down) { return high -= n; }
  char *p = low;
  low += n;
  return p;
}
static void put(void *p) {
  if (p && !(p >= pool && p < pool + SIZE)) { free(p); }
}
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
int main(int, char **argv) {
  down = !strcmp(argv[2], "down");
  try {
    return grazer::run(argv[1]);
  } catch (std::exception &e) {
    puts(e.what());
    return 1;
  }
}
'''})

seed("c10-equidistant-lookup", "C10", "src/Auxillary/InterpolatingVector/InterpolatingVector.cpp",
     """    auto it = std::lower_bound(
        interpolation_points.begin(), interpolation_points.end(), t);
""",
     """    auto first = interpolation_points.begin();
    auto last = interpolation_points.end();
    if (interpolation_points.size() > 16) {
      // Long vectors: begin the search close to the wanted point.
      auto estimate = static_cast<std::ptrdiff_t>(
          static_cast<double>(interpolation_points.size() - 1)
          * (t - interpolation_points.front())
          / (interpolation_points.back() - interpolation_points.front()));
      auto number = static_cast<std::ptrdiff_t>(interpolation_points.size());
      last = first + std::min(estimate + 3, number - 1);
      first = first + std::max(estimate - 1, std::ptrdiff_t(1));
    }
    auto it = std::lower_bound(first, last, t);
""",
     """
. "$(dirname "$0")/common.sh"
build_prog "$HERE/demo.cpp" "$T/demo"
"$T/demo"
""",
     "boundary values (or other interpolation data) with more than 16 points that are not equally spaced",
     "values between the points are extrapolated from the wrong pair of points",
     extra={"demo.cpp": r'''
#include "InterpolatingVector.hpp"
#include <cmath>
#include <cstdio>
#include <nlohmann/json.hpp>
int main() {
  nlohmann::json data;
  data["id"] = "a";
  std::vector<double> T, V;
  double t = 0;
  for (int i = 0; i < 40; ++i) {
    T.push_back(t), V.push_back(std::sin(i) * 10);
    data["data"].push_back({{"time", T.back()}, {"values", {V.back()}}});
    t += i < 30 ? 60 : 3600; // measurements every minute, later every hour
  }
  nlohmann::json schema = R"({"type":"object"})"_json;
  auto v = Aux::InterpolatingVector::construct_from_json(data, schema);
  int bad = 0;
  for (int i = 0; i + 1 < 40; ++i) {
    for (double f : {0.0, 0.25, 0.5, 1.0}) {
      double x = T[i] + f * (T[i + 1] - T[i]), want = V[i] + f * (V[i + 1] - V[i]), got = v(x)[0];
      if (std::abs(got - want) > 1e-9) {
        printf("at %g: %g instead of %g\n", x, got, want);
        bad = 1;
      }
    }
  }
  return bad;
}
'''})

seed("c16-best-seen", "C16", "src/IpoptWrapper/Wrapper.cpp",
     "    return optimizer->evaluate_objective(controls, objective_value);\n",
     """    bool success = optimizer->evaluate_objective(controls, objective_value);
    // remember the best controls, however the optimization ends:
    if (success
        and (best_solution.size() == 0
             or objective_value < best_objective_value)) {
      best_solution = controls;
      best_objective_value = objective_value;
    }
    return success;
""",
     """
. "$(dirname "$0")/common.sh"
build_prog "$HERE/demo.cpp" "$T/demo"
"$T/demo"
""",
     "an optimum at which a constraint is active, so that the optimiser passes through points with a lower objective that violate the constraint",
     "the reported controls are not the optimum found but an earlier iterate, which may violate the constraints",
     more=[("src/IpoptWrapper/Wrapper.cpp",
            "    best_solution = solution;\n    best_objective_value = obj_value;\n",
            "    if (best_solution.size() == 0 or obj_value < best_objective_value) {\n      best_solution = solution;\n      best_objective_value = obj_value;\n    }\n")],
     extra={"optdemo.hpp": opt_hpp(), "demo.cpp": r'''
#include "optdemo.hpp"
int main() {
  Optimisation o({0, 1, 2, 3, 4}, {0, 1, 2, 3, 4}, {1, 2, 3, 4});
  Eigen::VectorXd good = Eigen::VectorXd::Constant(o.n, 1.5), better = Eigen::VectorXd::Constant(o.n, 0.1), g;
  double f1, f2;
  if (!o.f(good, true, f1) || !o.f(better, true, f2) || !o.g(good, true, g) || !(f2 < f1)) {
    puts("unexpected values");
    return 2;
  }
  // the optimiser decides for the first of them, the other one may violate constraints
  o.w->finalize_solution(Ipopt::SUCCESS, o.n, good.data(), nullptr, nullptr, o.m, g.data(), nullptr, f1, nullptr, nullptr);
  if (o.w->get_best_solution() != good) {
    puts("the reported controls are not the solution");
    return 1;
  }
  return 0;
}
'''})

COMPONENTJSON = "src/Auxillary/ComponentJsonHelpers/ComponentJsonHelpers.cpp"
seed("c19-numeric-order", "C19", COMPONENTJSON,
     "          return a[\"id\"].get<std::string>() < b[\"id\"].get<std::string>();\n",
     """          auto left = a["id"].get<std::string>();
          auto right = b["id"].get<std::string>();
          // the usual ids are numbered, keep them in their natural order:
          if (left.size() != right.size()) {
            return left.size() < right.size();
          }
          return left < right;
""",
     """
. "$(dirname "$0")/common.sh"
build_grazer
cp -r "$REPO/data/one_pipeline" "$T/p"
rm -rf "$T/p/output"
"$T/grazer" run "$T/p" > "$T/log" 2>&1 || { echo "fault-free run failed"; cat "$T/log"; exit 2; }
cp "$T"/p/output/*/states.json "$T/want.json"
rm -rf "$T/p/output"
# boundary values of a node that is not in the topology any more
python3 - "$T/p/problem/boundary.json" <<'E' || exit 2
import json, sys, copy
b = json.load(open(sys.argv[1]))
for t, l in b["nodes"].items():
    if l:
        e = copy.deepcopy(l[0])
        e["id"] = "z" + t[1]
        l.append(e)
json.dump(b, open(sys.argv[1], "w"))
E
"$T/grazer" run "$T/p" > "$T/log" 2>&1 || { echo "an additional entry of the boundary file breaks the run"; exit 1; }
cmp -s "$T"/p/output/*/states.json "$T/want.json" || { echo "an additional entry changes the result"; exit 1; }
exit 0
""",
     "ids of different lengths together with boundary entries for components that are not in the topology",
     "a problem that can be simulated is rejected (or a component gets no boundary values), because two places sort differently")

seed("c20-lenient-settings", "C20", "src/Grazer/helpers.cpp",
     """        o << "\\"control_settings\\" contains both \\"desired_delta_t\\" "
             "and \\"number_of_steps.\\". I don't know, what to choose. Please "
             "only provide one.";
        throw std::runtime_error(o.str());
""",
     """        o << "\\"control_settings\\" contains both \\"desired_delta_t\\" "
             "and \\"number_of_steps.\\", using \\"desired_delta_t\\".";
        std::cout << o.str() << std::endl;
""",
     """
. "$(dirname "$0")/common.sh"
build_prog "$HERE/demo.cpp" "$T/demo"
"$T/demo" "$T"
""",
     "contradicting control settings in the input of a problem with controls",
     "contradicting settings are accepted instead of rejected",
     more=[("src/Grazer/helpers.cpp", "#include <sstream>\n", "#include <iostream>\n#include <sstream>\n")],
     extra={"optdemo.hpp": opt_hpp(), "demo.cpp": r'''
#include "optdemo.hpp"
#include "Timedata.hpp"
#include "helpers.hpp"
#include <fstream>
int main(int, char **argv) {
  std::filesystem::path dir = argv[1];
  std::ofstream(dir / "control.json") << "{}";
  Hooks hooks;
  Mock_OptimizableObject problem(hooks);
  nlohmann::json sim = {{"start_time", 0.0}, {"end_time", 10.0}, {"desired_delta_t", 1.0}};
  Model::Timedata time(sim);
  nlohmann::json all;
  Aux::InterpolatingVector controls;
  all["control_settings"] = {{"desired_delta_t", 2.0}};
  setup_controls(controls, problem, time, all, dir);
  if (controls.size() != 6) { puts("unexpected number of controls"); return 2; }
  all["control_settings"] = {{"desired_delta_t", 2.0}, {"number_of_steps", 3}};
  try {
    setup_controls(controls, problem, time, all, dir);
  } catch (std::exception &e) { return 0; }
  puts("contradicting settings accepted");
  return 1;
}
'''})

seed("c24-include-seed", "C24", "helper_functions/include_seed_in_boundaryvalues.cpp",
     """          auto find_id = [&](json x) { return id == x["id"]; };
          auto iterator = std::find_if(
              boundary[componentclass][type].begin(),
              boundary[componentclass][type].end(), find_id);
""",
     """          auto id_less = [](json const &x, std::string const &wanted) {
            return x["id"].get<std::string>() < wanted;
          };
          // results and boundary values are sorted by id
          auto iterator = std::lower_bound(
              boundary[componentclass][type].begin(),
              boundary[componentclass][type].end(), id, id_less);
""",
     """
. "$(dirname "$0")/common.sh"
build_prog "$REPO/helper_functions/include_seed_in_boundaryvalues.cpp" "$T/include"
mkdir -p "$T/p/problem"
cat > "$T/p/problem/boundary.json" <<'E'
{"nodes": {"StochasticPQnode": [
 {"id": "c", "data": []}, {"id": "a", "data": []}, {"id": "b", "data": []}]}}
E
cat > "$T/results.json" <<'E'
{"nodes": {"StochasticPQnode": [
 {"id": "a", "seed": [1, 2], "data": []}, {"id": "b", "seed": [3, 4], "data": []}, {"id": "c", "seed": [5, 6], "data": []}]}}
E
"$T/include" "$T/p" "$T/results.json" > "$T/log" 2>&1 || { echo "rejected"; cat "$T/log"; exit 1; }
python3 - "$T/p/problem/boundary.json" <<'E'
import json, sys
got = {e["id"]: e.get("seed") for e in json.load(open(sys.argv[1]))["nodes"]["StochasticPQnode"]}
print(got)
sys.exit(0 if got == {"a": [1, 2], "b": [3, 4], "c": [5, 6]} else 1)
E
""",
     "a boundary file whose entries are not sorted by id",
     "seeds end up at the wrong component, or components are reported as missing")

seed("c25-extract-float", "C25", "helper_functions/extract_new_initial_condition.cpp",
     """          return a["time"] < b["time"];
""",
     """          return a["time"].get<float>() < b["time"].get<float>();
""",
     """
. "$(dirname "$0")/common.sh"
build_prog "$REPO/helper_functions/extract_new_initial_condition.cpp" "$T/extract"
status=0
for start in 0 1600000000; do
  cat > "$T/results.json" <<E
{"nodes": {"PQnode": [{"id": "a", "data": [
 {"time": $start.0, "P": 1.0, "Q": 2.0, "V": 1.5, "phi": 0.5},
 {"time": $((start + 10)).0, "P": 1.0, "Q": 2.0, "V": 2.5, "phi": 1.5},
 {"time": $((start + 20)).0, "P": 1.0, "Q": 2.0, "V": 3.5, "phi": 2.5}]}]}}
E
  for pair in 0:1.5 3:2.5 7:2.5 10:2.5 13:3.5 19:3.5 30:3.5; do
    "$T/extract" "$T/results.json" "$T/initial.json" $((start + ${pair%:*})) > "$T/log" 2>&1 || { cat "$T/log"; exit 2; }
    python3 -c 'import json, sys
got = json.load(open(sys.argv[1]))["nodes"]["PQnode"][0]["data"][0]["values"][0]
if got != float(sys.argv[2]): print("at", sys.argv[3], got, "instead of", sys.argv[2]); sys.exit(1)' "$T/initial.json" ${pair#*:} ${pair%:*} || status=1
  done
done
exit $status
""",
     "results whose times are large (seconds since 1970, say) compared with the time step",
     "the state of another time point than the wanted one is extracted")

# --------------------------------------------------------------------------- further rounds
POWER = r'''
import json, math, os, sys
d = sys.argv[1]
os.makedirs(d + "/problem")
def put(n, j):
    json.dump(j, open(d + "/problem/" + n, "w"))
put("problem_data.json", {"optimize": False, "simulation_settings": {"tolerance": 1e-9, "maximal_number_of_newton_iterations": 50,
    "retries": 0, "use_simplified_newton": False, "start_time": 0.0, "end_time": 10.0, "desired_delta_t": 5.0},
    "problem_data": {"topology_json": "topology.json", "boundary_json": "boundary.json"}})
put("topology.json", {"nodes": {"Vphinode": [{"id": "a", "G": 0.3, "B": -4.0}], "PQnode": [{"id": "b", "G": 0.2, "B": -3.0}]},
    "connections": {"Transmissionline": [
        {"id": "l", "from": "a", "to": "b", "G": -0.1, "B": 1.5},
        {"id": "m", "from": "b", "to": "a", "G": -0.2, "B": 0.7},
        {"id": "n", "from": "a", "to": "b", "G": -0.05, "B": 0.4}]}})
put("boundary.json", {"nodes": {"Vphinode": [{"id": "a", "data": [{"time": 0.0, "values": [1.0, 0.0]}, {"time": 10.0, "values": [1.0, 0.0]}]}],
    "PQnode": [{"id": "b", "data": [{"time": 0.0, "values": [-0.1, -0.05]}, {"time": 10.0, "values": [-0.2, -0.1]}]}]}, "connections": {}})
put("initial.json", {"nodes": {"Vphinode": [{"id": "a", "data": [{"x": 0.0, "values": [1.0, 0.0]}]}],
    "PQnode": [{"id": "b", "data": [{"x": 0.0, "values": [0.97, 0.02]}]}]}, "connections": {}})
'''
POWERCHECK = r'''
import json, math, sys
t = json.load(open(sys.argv[1]))
top = json.load(open(sys.argv[2]))
data = {e["id"]: (e["data"], n["G"], n["B"]) for k in t["nodes"] for e in t["nodes"][k] for n in top["nodes"][k] if n["id"] == e["id"]}
bad = 0
for i in range(1, 3):
    for a, (rows, G, B) in data.items():
        V, f = rows[i]["V"], rows[i]["phi"]
        P, Q = G * V * V, -B * V * V
        for l in top["connections"]["Transmissionline"]:
            if a in (l["from"], l["to"]):
                o = data[l["to"] if a == l["from"] else l["from"]][0][i]
                x = f - o["phi"]
                P += V * o["V"] * (l["G"] * math.cos(x) + l["B"] * math.sin(x))
                Q += V * o["V"] * (l["G"] * math.sin(x) - l["B"] * math.cos(x))
        if abs(P - rows[i]["P"]) > 1e-6 or abs(Q - rows[i]["Q"]) > 1e-6:
            print("node", a, "row", i, "reports", rows[i]["P"], rows[i]["Q"], "but has", P, Q)
            bad = 1
sys.exit(bad)
'''
seed("c11-merged-lines", "C11", "src/Model/Networkproblem/Power/Powernode.cpp",
     """      auto line_G = line->get_G();
      auto line_B = line->get_B();

      attached_component_data.push_back({line_G, line_B, startnode});
""",
     """      auto line_G = line->get_G();
      auto line_B = line->get_B();

      // Lines to the same node share their trigonometric terms:
      auto same_node = [startnode](auto const &triple) {
        return std::get<2>(triple) == startnode;
      };
      auto known = std::find_if(
          attached_component_data.begin(), attached_component_data.end(),
          same_node);
      if (known != attached_component_data.end()) {
        std::get<0>(*known) += line_G;
        std::get<1>(*known) = line_B;
      } else {
        attached_component_data.push_back({line_G, line_B, startnode});
      }
""",
     """
. "$(dirname "$0")/common.sh"
build_grazer
python3 "$HERE/make.py" "$T/p" || exit 2
"$T/grazer" run "$T/p" > "$T/log" 2>&1 || { tail -5 "$T/log"; echo "the run failed"; exit 1; }
python3 "$HERE/check.py" "$T"/p/output/*/states.json "$T/p/problem/topology.json"
""",
     "two nodes joined by more than one line, at least one of them ending at the node in question",
     "only the susceptance of the last of several parallel lines counts",
     extra={"make.py": POWER, "check.py": POWERCHECK},
     more=[("src/Model/Networkproblem/Power/Powernode.cpp", "#include <tuple>\n", "#include <algorithm>\n#include <tuple>\n")])

seed("c10-coefficients-once", "C10", "src/Model/Balancelaw/Isothermaleulerequation.cpp",
     """        dSwamee_Jain_dRe(turbulent_border, diameter, roughness));
    return coeff_helper_matrix.lu().solve(spline_constraints);
""",
     """        dSwamee_Jain_dRe(turbulent_border, diameter, roughness));
    // The linear system is solved only once per kind of pipe:
    static std::map<double, Eigen::Vector4d> known_coefficients;
    auto [iterator, is_new]
        = known_coefficients.try_emplace(diameter, Eigen::Vector4d::Zero());
    if (is_new) {
      iterator->second = coeff_helper_matrix.lu().solve(spline_constraints);
    }
    return iterator->second;
""",
     """
. "$(dirname "$0")/common.sh"
build_prog "$HERE/demo.cpp" "$T/demo"
"$T/demo"
""",
     "two pipes of the same diameter but different roughness, at least one with a flow between laminar and turbulent",
     "a pipe gets the friction of another pipe with the same diameter in the transitional regime",
     extra={"demo.cpp": r'''
#include "Isothermaleulerequation.hpp"
#include <cmath>
#include <cstdio>
#include <nlohmann/json.hpp>
int main() {
  int bad = 0;
  for (double roughness : {1e-6, 5e-3, 1e-5}) {
    nlohmann::json pipe;
    pipe["diameter"] = {{"unit", "m"}, {"value", 0.5}};
    pipe["roughness"] = {{"unit", "m"}, {"value", roughness}};
    Model::Balancelaw::Isothermaleulerequation law(pipe);
    double q4000 = 4000 / law.Reynolds(1.0, 0.5);
    Eigen::Vector2d below(50.0, q4000 * (1 - 1e-7)), above(50.0, q4000 * (1 + 1e-7));
    double a = law.source(below)[1], b = law.source(above)[1];
    if (std::abs(a - b) > 1e-4 * std::abs(b)) {
      printf("roughness %g: the friction jumps from %g to %g at Re = 4000\n", roughness, a, b);
      bad = 1;
    }
  }
  return bad;
}
'''},
     more=[("src/Model/Balancelaw/Isothermaleulerequation.cpp", '#include "unit_conversion.hpp"\n', '#include "unit_conversion.hpp"\n\n#include <map>\n')])

seed("c13-points-as-given", "C13", "src/Model/Networkproblem/Componentclasses/SimpleStatecomponent.cpp",
     """    for (Eigen::Index i = 0; i != number_of_points; ++i) {
      vector_to_be_filled.segment(current_index, number_of_indices_per_step)
          = converter_function(initialvalues(static_cast<double>(i) * Delta_x));
""",
     """    // No need to interpolate, if the values are given point by point.
    bool const given_pointwise = initialvalues.size() == number_of_points;
    for (Eigen::Index i = 0; i != number_of_points; ++i) {
      vector_to_be_filled.segment(current_index, number_of_indices_per_step)
          = converter_function(
              given_pointwise
                  ? Eigen::VectorXd(initialvalues.vector_at_index(i))
                  : initialvalues(static_cast<double>(i) * Delta_x));
""",
     """
. "$(dirname "$0")/common.sh"
build_prog "$HERE/demo.cpp" "$T/demo"
"$T/demo"
""",
     "initial data of a pipe with as many points as its grid, but at other places",
     "the initial state holds the given values at wrong places",
     extra={"demo.cpp": r"""
#include "Innode.hpp"
#include "Node.hpp"
#include "Pipe.hpp"
#include <Eigen/Dense>
#include <cmath>
#include <cstdio>
#include <nlohmann/json.hpp>
int main() {
  int bad = 0;
  for (double middle : {500.0, 200.0, 777.0}) {
    std::vector<std::unique_ptr<Network::Node>> nodes;
    nodes.push_back(std::make_unique<Model::Gas::Innode>(nlohmann::json{{"id", "a"}}));
    nodes.push_back(std::make_unique<Model::Gas::Innode>(nlohmann::json{{"id", "b"}}));
    auto m = [](double v) { return nlohmann::json{{"unit", "m"}, {"value", v}}; };
    nlohmann::json top = {{"id", "p"}, {"from", "a"}, {"to", "b"}, {"length", m(1000)}, {"diameter", m(0.5)}, {"roughness", m(1e-5)},
        {"desired_delta_x", 500.0}, {"balancelaw", "Isothermaleulerequation"}, {"scheme", "Implicitboxscheme"}};
    Model::Gas::Pipe pipe(top, nodes);
    pipe.set_state_indices(0);
    nlohmann::json initial;
    initial["id"] = "p";
    initial["data"] = {{{"x", 0.0}, {"values", {60.0, 0.0}}}, {{"x", middle}, {"values", {60.0, 10.0}}}, {{"x", 1000.0}, {"values", {60.0, 4.0}}}};
    Eigen::VectorXd state(6);
    state.setZero();
    pipe.set_initial_values(state, initial);
    double expected = middle >= 500 ? 10.0 * 500 / middle : 10.0 + (500 - middle) / (1000 - middle) * (4.0 - 10.0);
    if (std::abs(state[3] - expected) > 1e-9) {
      printf("flow at 500 m: %g instead of %g\\n", state[3], expected);
      bad = 1;
    }
  }
  return bad;
}
"""})

seed("c23-zero-means-default", "C23", "src/Auxillary/json_schema/schema_validation.cpp",
     """    if (value.contains("default") and (not data.contains(key))) {
""",
     """    auto is_empty = [](json const &entry) {
      // entries of form fields that were not filled in:
      return entry.is_number() ? entry == 0 : entry.empty();
    };
    if (value.contains("default")
        and (not data.contains(key) or is_empty(data[key]))) {
""",
     """
. "$(dirname "$0")/common.sh"
build_grazer
status=0
for G in 0.0 0.3; do
  rm -rf "$T/p"
  python3 "$HERE/make.py" "$T/p" || exit 2
  "$T/grazer" run "$T/p" > "$T/log" 2>&1 || { tail -5 "$T/log"; exit 2; }
  python3 - "$T/p" $G <<'E' || exit 2
import json, sys
f = sys.argv[1] + "/problem/topology.json"
t = json.load(open(f))
t["nodes"]["PQnode"][0]["G"] = float(sys.argv[2])
json.dump(t, open(f, "w"))
f = sys.argv[1] + "/problem/problem_data.json"
t = json.load(open(f))
t["problem_data"]["defaults"] = {"PQnode": {"G": 0.1}}
json.dump(t, open(f, "w"))
E
  rm -rf "$T/p/output"
  "$T/grazer" run "$T/p" > "$T/log" 2>&1 || { tail -5 "$T/log"; exit 2; }
  python3 "$HERE/check.py" "$T"/p/output/*/states.json "$T/p/problem/topology.json" || status=1
done
exit $status
""",
     "a component with a given value of exactly zero and a default for that value",
     "the given zero is overridden by the default",
     extra={"make.py": POWER, "check.py": POWERCHECK})

seed("c20-sorted-points", "C20", "src/Auxillary/InterpolatingVector/InterpolatingVector.cpp",
     """      interpolation_points.push_back(entry[name]);
    }
""",
     """      interpolation_points.push_back(entry[name]);
    }
    // the lookup of values needs ascending points:
    std::sort(interpolation_points.begin(), interpolation_points.end());
""",
     """
. "$(dirname "$0")/common.sh"
build_grazer
python3 "$HERE/make.py" "$T/p" || exit 2
"$T/grazer" run "$T/p" > "$T/log" 2>&1 || { tail -5 "$T/log"; exit 2; }
python3 - "$T/p" <<'E' || exit 2
import json, sys
f = sys.argv[1] + "/problem/boundary.json"
t = json.load(open(f))
t["nodes"]["PQnode"][0]["data"].reverse()
json.dump(t, open(f, "w"))
E
rm -rf "$T/p/output"
if "$T/grazer" run "$T/p" > "$T/log" 2>&1; then echo "unsorted data points were accepted"; exit 1; fi
exit 0
""",
     "a data series whose points are not in ascending order",
     "unsorted data are not rejected but used with the values of other points",
     extra={"make.py": POWER})

seed("c05-same-size", "C05", "src/Auxillary/json_schema/schema_generation.cpp",
     """      path file = schema_dir / path(name + "_schema.json");
""",
     """      path file = schema_dir / path(name + "_schema.json");
      // do not touch files that are up to date, editors reload them:
      if (std::filesystem::exists(file)
          and std::filesystem::file_size(file)
                  == schema.dump(/*indent=*/1, /*indent_char=*/'\\t').size()) {
        continue;
      }
""",
     """
. "$(dirname "$0")/common.sh"
build_grazer
cp -r "$REPO/data/one_pipeline" "$T/p"
rm -rf "$T/p/schemas"
pd="$T/p/problem/problem_data.json"
for value in 0.3 0.5 0.25; do
  echo '{"problem_data": {"defaults": {"PQnode": {"G": '$value'}}}}' > "$pd"
  "$T/grazer" schema make-full-factory "$T/p" > "$T/log" 2>&1 || { cat "$T/log"; exit 2; }
  cp -r "$T/p" "$T/q"
  rm -rf "$T/q/schemas"
  "$T/grazer" schema make-full-factory "$T/q" > "$T/log" 2>&1 || { cat "$T/log"; exit 2; }
  diff -r "$T/p/schemas" "$T/q/schemas" > "$T/log" || { echo "the schemas are not those of the present defaults"; head -5 "$T/log"; exit 1; }
  rm -rf "$T/q"
done
exit 0
""",
     "schemas that exist already and a change of the defaults that does not change the length of the text",
     "the old schema is kept, though the command reports success")

seed("c04-schema-substring", "C04", "src/Auxillary/json_schema/schema_key_insertion.cpp",
     """        ordered_json result;
        result["$schema"]""",
     """        if (old_json.dump().find("\\"$schema\\"") != std::string::npos) {
          // has got its key already.
          continue;
        }
        ordered_json result;
        result["$schema"]""",
     """
. "$(dirname "$0")/common.sh"
build_grazer
cp -r "$REPO/data/one_pipeline" "$T/p"
rm -rf "$T/p/schemas"
"$T/grazer" schema make-full-factory "$T/p" > "$T/log" 2>&1 || { cat "$T/log"; exit 2; }
python3 - "$T/p/problem" <<'E' || exit 2
import json, sys
for n in ("initial", "boundary", "control"):
    f = sys.argv[1] + "/" + n + ".json"
    try:
        d = json.load(open(f))
    except OSError:
        d = {}
    d.pop("$schema", None)
    if n == "boundary":
        d["external"] = {"$schema": "other.json", "a": 1}
    json.dump(d, open(f, "w"))
E
"$T/grazer" schema insert-key "$T/p" > "$T/log" 2>&1 || { echo "insert-key failed"; cat "$T/log"; exit 1; }
python3 - "$T/p/problem" <<'E' || exit 1
import json, sys
for n in ("initial", "boundary", "control"):
    d = json.load(open(sys.argv[1] + "/" + n + ".json"))
    if list(d)[0] != "$schema":
        sys.exit(n + " has no schema reference, but the command reported success")
E
exit 0
""",
     "a problem file without the reference, in which the key $schema occurs further down",
     "the reference is not inserted, though the command reports success")
