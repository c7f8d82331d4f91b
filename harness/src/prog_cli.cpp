// Runs command line instances and the file level library functions of grazer
// as actors inside the simulated world.
#include "Aux_json.hpp"
#include "Input_output.hpp"
#include "sim.hpp"
#include <filesystem>
#include <iostream>

int grazer_main(int, char **);

// the helper programs
#define TOOLS(X)                                                                                                                                               \
  X(extract_new_initial_condition)                                                                                                                             \
  X(include_seed_in_boundaryvalues)                                                                                                                            \
  X(remove_seed_from_boundaryvalues)                                                                                                                           \
  X(change_inflow)                                                                                                                                             \
  X(increase_pressure)                                                                                                                                         \
  X(sum_outflow)                                                                                                                                               \
  X(move_to_category)                                                                                                                                          \
  X(construct_gaspowerconnection)                                                                                                                              \
  X(normalize_jsons)                                                                                                                                           \
  X(insert_positions)                                                                                                                                          \
  X(generate_printing_csv)                                                                                                                                     \
  X(generate_control_printing_csv)
#define DECLARE(t) extern "C" int tool_##t##_main(int, char **) __attribute__((weak));
TOOLS(DECLARE)

static int run_tool(std::string const &name, int argc, char **argv) {
#define CALL(t)                                                                                                                                                \
  if (name == #t) {                                                                                                                                            \
    return tool_##t##_main ? tool_##t##_main(argc, argv) : 98;                                                                                                 \
  }
  TOOLS(CALL)
  return 98;
}

int main(int argc, char **argv) {
  using gsim::json;
  return gsim::serve(argc, argv, [](json const &sc, json &result) {
    gsim::run_world(
        sc,
        [](json const &spec, json &out) -> int {
          std::string kind = spec.value("kind", "cli");
          if (kind == "cli") {
            std::vector<std::string> args = spec["args"].get<std::vector<std::string>>();
            std::vector<char *> av;
            static char name[] = "grazer";
            av.push_back(name);
            for (auto &a : args) { av.push_back(a.data()); }
            av.push_back(nullptr);
            if (spec.contains("tool")) { return run_tool(spec["tool"], (int)av.size() - 1, av.data()); }
            return grazer_main((int)av.size() - 1, av.data());
          }
          if (kind == "new_file") {
            json paths = json::array();
            for (int i = 0; i != spec.value("count", 1); ++i) {
              paths.push_back(io::prepare_output_file(spec["dir"].get<std::string>()).string());
              out["paths"] = paths;
            }
            return 0;
          }
          if (kind == "new_dir") {
            json paths = json::array();
            for (int i = 0; i != spec.value("count", 1); ++i) {
              paths.push_back(io::unique_output_directory(spec["dir"].get<std::string>()).string());
              out["paths"] = paths;
            }
            return 0;
          }
          if (kind == "overwrite") {
            aux_json::overwrite_json(
                spec["path"].get<std::string>(), nlohmann::ordered_json::parse(spec["text"].get<std::string>()));
            return 0;
          }
          return 99;
        },
        result);
  });
}
