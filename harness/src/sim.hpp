// Deterministic simulator core: every system call, clock read, random draw and
// heap allocation of the code under test goes through here.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <nlohmann/json.hpp>
#include <string>
#include <vector>

namespace gsim {
  using nlohmann::json;

  struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    uint64_t next() {
      uint64_t z = (s += 0x9E3779B97F4A7C15ull);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return double(next() >> 11) / double(1ull << 53); }
    double uni(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
  };

  inline void hash_bytes(uint64_t &h, void const *p, size_t n) {
    auto c = static_cast<unsigned char const *>(p);
    for (size_t i = 0; i != n; ++i) {
      h ^= c[i];
      h *= 1099511628211ull;
    }
  }
  inline void hash_str(uint64_t &h, std::string const &s) {
    hash_bytes(h, s.data(), s.size());
    hash_bytes(h, "|", 1);
  }

  // Runs the actors of a scenario under the simulated world; fills `result`.
  // scenario keys: cwd, actors[], faults[], sched{}, clock{}, mem{}, entropy,
  // readdir_seed, disk_bytes, max_ops, trace
  using ActorBody = std::function<int(json const &spec, json &out)>;
  void run_world(json const &scenario, ActorBody body, json &result);

  // Single-threaded use of the simulated world without actors (API level
  // harnesses): clock, entropy and heap are simulated, file faults inactive.
  void begin_light(json const &scenario);

  // Add to the event hash (API level harnesses log their own events).
  void log_event(std::string const &e);
  uint64_t event_hash();

  // server loop: one JSON scenario per line on stdin; each handled in a forked
  // child.  handler fills result.  Returns process exit code.
  int serve(int argc, char **argv, std::function<void(json const &, json &)> handler);

  // allocation accounting (for fault injection in API level harnesses)
  void set_alloc_active(bool on);
  uint64_t alloc_count();
} // namespace gsim
