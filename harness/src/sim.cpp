#include "sim.hpp"
#include "sim_heap.hpp"
#include <cerrno>
#include <condition_variable>
#include <cstdarg>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

namespace gsim {
  namespace {
    // ------------------------------------------------------------------ world
    struct Fault {
      int actor = -1;
      std::string op, path, act;
      long nth = 1, arg = 0, len = 1;
      int err = EIO;
      long seen = 0, fired = 0;
    };
    enum class St { blocked, ready, done, crashed };
    struct Actor {
      int id;
      json spec;
      St st = St::blocked;
      long long wake = 0;
      long ops = 0;
      int rc = -999;
      std::string status = "never-run", what;
      json out = json::object();
      std::condition_variable cv;
      pthread_t th;
      std::vector<int> after;
      void *stack = nullptr;
    };
    constexpr size_t STACK = 16u << 20;

    struct World {
      bool on = false, light = false;
      std::string root;
      std::vector<std::unique_ptr<Actor>> actors;
      std::mutex m;
      std::condition_variable main_cv;
      int turn = -1; // actor with the baton; -1: main
      std::vector<Fault> faults;
      // schedule
      bool sched_random = false;
      double sched_p = 0;
      Rng sched_rng{1};
      std::vector<std::pair<long, int>> sched_list;
      size_t sched_pos = 0;
      std::vector<std::pair<long, int>> sched_taken;
      long eventno = 0;
      uint64_t switches = 0;
      // clock (microseconds)
      long long wall = 1600000000000000ll, mono = 1000000ll, covered = 0;
      long long tick_max = 50;
      bool stall = false;
      Rng clock_rng{1};
      std::vector<std::pair<long, long long>> jumps; // (nth wall read, jump us)
      long wall_reads = 0;
      // entropy
      Rng ent{1};
      bool ent_const = false;
      // dirs
      Rng dir_rng{1};
      bool dir_shuffle = false;
      long long disk_left = -1;
      long max_ops = 200000;
      bool budget_hit = false;
      uint64_t hash = 1469598103934665603ull;
      bool trace_on = false;
      std::string area;
      std::vector<std::string> trace;
      json muts = json::array();
      std::set<std::string> mut_seen;
      json escapes = json::array();
      std::map<std::string, long> opcount, faultcount;
    };
    World W;
    thread_local Actor *cur = nullptr;
    struct FdInfo {
      std::string path;
      bool used = false;
      bool wr = false;
    };
    FdInfo fds[1024];
    struct DirState {
      std::string path;
      std::vector<dirent> entries;
      size_t pos = 0;
    };
    std::map<DIR *, DirState> dirs;

    template <class F> F real(char const *name) {
      return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    }

    // own allocations of the simulator must not disturb the simulated heap's
    // fault counters
    struct Quiet {
      bool was;
      Quiet() : was(heap::active) { heap::active = false; }
      ~Quiet() { heap::active = was; }
    };

    std::string absolutise(std::string p) {
      if (p.empty() || p[0] != '/') { p = W.root + "/" + p; }
      // lexical normalisation
      std::vector<std::string> parts;
      size_t i = 0;
      while (i < p.size()) {
        size_t j = p.find('/', i);
        if (j == std::string::npos) { j = p.size(); }
        std::string s = p.substr(i, j - i);
        if (s == "..") {
          if (!parts.empty()) { parts.pop_back(); }
        } else if (!s.empty() && s != ".") {
          parts.push_back(s);
        }
        i = j + 1;
      }
      std::string r;
      for (auto &s : parts) { r += "/" + s; }
      return r.empty() ? "/" : r;
    }
    bool inside(std::string const &abs) {
      return abs == W.area || abs.compare(0, W.area.size() + 1, W.area + "/") == 0;
    }
    std::string rel(std::string const &abs) {
      if (abs == W.root) { return "."; }
      if (abs.compare(0, W.root.size() + 1, W.root + "/") == 0) { return abs.substr(W.root.size() + 1); }
      if (inside(abs)) { return "@" + abs.substr(W.area.size()); }
      return abs;
    }

    void logev(std::string const &s) {
      hash_str(W.hash, s);
      if (W.trace_on && W.trace.size() < 20000) { W.trace.push_back(s); }
    }

    void advance(long long us) {
      W.wall += us;
      W.mono += us;
      W.covered += us;
    }

    // ----------------------------------------------------------------- baton
    bool runnable(Actor &a) {
      if (a.st == St::blocked) {
        for (int o : a.after) {
          if (W.actors[o]->st != St::done && W.actors[o]->st != St::crashed) { return false; }
        }
        a.st = St::ready;
      }
      return a.st == St::ready;
    }
    std::vector<int> candidates() {
      std::vector<int> c;
      for (auto &a : W.actors) {
        if (runnable(*a) && a->wake <= W.mono) { c.push_back(a->id); }
      }
      if (c.empty()) { // discrete event time: jump to the next wake-up
        long long best = -1;
        for (auto &a : W.actors) {
          if (runnable(*a) && (best < 0 || a->wake < best)) { best = a->wake; }
        }
        if (best >= 0) {
          advance(best - W.mono);
          for (auto &a : W.actors) {
            if (runnable(*a) && a->wake <= W.mono) { c.push_back(a->id); }
          }
        }
      }
      return c;
    }
    // choose who runs next; `self` may continue if it is a candidate
    int choose(int self) {
      long e = ++W.eventno;
      auto c = candidates();
      if (c.empty()) { return -1; }
      bool self_ok = false;
      for (int i : c) { self_ok |= (i == self); }
      int pick = self_ok ? self : c[0];
      if (W.sched_random) {
        if (!self_ok || (c.size() > 1 && W.sched_rng.chance(W.sched_p))) {
          pick = c[W.sched_rng.below(c.size())];
        }
      } else {
        while (W.sched_pos < W.sched_list.size() && W.sched_list[W.sched_pos].first < e) { ++W.sched_pos; }
        if (W.sched_pos < W.sched_list.size() && W.sched_list[W.sched_pos].first == e) {
          for (int i : c) {
            if (i == W.sched_list[W.sched_pos].second) { pick = i; }
          }
          ++W.sched_pos;
        }
      }
      int dflt = self_ok ? self : c[0];
      if (pick != dflt) { W.sched_taken.push_back({e, pick}); }
      if (pick != self) { ++W.switches; }
      return pick;
    }
    void hand_over(std::unique_lock<std::mutex> &lk, int next) {
      W.turn = next;
      if (next < 0) {
        W.main_cv.notify_all();
      } else {
        W.actors[next]->cv.notify_all();
      }
      (void)lk;
    }
    void yield_point() {
      Actor *a = cur;
      std::unique_lock<std::mutex> lk(W.m);
      int next = choose(a->id);
      if (next == a->id) { return; }
      hand_over(lk, next);
      a->cv.wait(lk, [&] { return W.turn == a->id; });
    }
    [[noreturn]] void park_forever(char const *why) {
      Actor *a = cur;
      heap::active = false;
      {
        std::unique_lock<std::mutex> lk(W.m);
        a->st = St::crashed;
        a->status = why;
        a->rc = 137;
        logev(std::string("#crash ") + std::to_string(a->id));
        hand_over(lk, choose(-2));
      }
      for (;;) { pause(); }
    }

    // ------------------------------------------------------------- op entry
    struct Op {
      bool active = false;
      int err = 0;      // error to return
      long lim = -1;    // byte limit for short transfer
      bool crash_after = false, crash_mid = false, lost = false;
      std::string kind, path;
    };
    // enter a system call: scheduling decision, fault matching, crash points
    bool exists_raw(std::string const &p) {
      struct stat st;
      return syscall(SYS_newfstatat, AT_FDCWD, p.c_str(), &st, AT_SYMLINK_NOFOLLOW) == 0;
    }
    Op enter(char const *kind, std::string const &abspath, long size = -1) {
      Op o;
      if (!W.on || !cur) { return o; }
      Quiet q;
      o.active = true;
      o.kind = kind;
      o.path = abspath;
      yield_point();
      Actor *a = cur;
      ++a->ops;
      ++W.opcount[kind];
      if (a->ops > W.max_ops) {
        W.budget_hit = true;
        park_forever("op-budget");
      }
      std::string r = rel(abspath);
      std::string k = kind;
      for (auto &f : W.faults) {
        if (f.actor >= 0 && f.actor != a->id) { continue; }
        if (f.op != "*" && f.op != k) { continue; }
        if (!f.path.empty() && r.find(f.path) == std::string::npos) { continue; }
        ++f.seen;
        if (f.seen < f.nth || f.seen >= f.nth + f.len) { continue; }
        ++f.fired;
        ++W.faultcount[f.act + ":" + k];
        logev("!" + f.act + " " + k + " " + r);
        if (f.act == "err") {
          o.err = f.err;
          // no file system claims that a file is absent which is there
          if ((f.err == ENOENT || f.err == ENOTDIR) && k == "stat" && exists_raw(abspath)) { o.err = EIO; }
        } else if (f.act == "short") {
          o.lim = f.arg > 0 ? f.arg : 1;
        } else if (f.act == "crash") {
          park_forever("crashed");
        } else if (f.act == "crash_after") {
          o.crash_after = true;
        } else if (f.act == "crash_mid") {
          o.crash_mid = true;
          o.lim = f.arg;
        } else if (f.act == "lost") {
          o.lost = true;
          o.err = f.err;
          o.lim = f.arg;
        }
      }
      (void)size;
      return o;
    }
    void leave(Op const &o, long ret, int err) {
      if (!o.active) { return; }
      int keep = errno;
      {
        Quiet q;
        long shown = ret;
        if (ret >= 0 && o.kind.rfind("open", 0) == 0) { shown = 0; }
        std::string s = std::to_string(cur->id) + " " + o.kind + " " + rel(o.path) + " "
                        + std::to_string(shown);
        if (ret < 0) { s += " e" + std::to_string(err); }
        logev(s);
      }
      if (o.crash_after || o.crash_mid) { park_forever("crashed"); }
      errno = keep;
    }
    bool mutation(Op &o, bool existed) {
      if (!o.active) { return true; }
      Quiet q;
      if (!inside(o.path)) {
        W.escapes.push_back({{"actor", cur->id}, {"op", o.kind}, {"path", o.path}});
        o.err = EACCES;
        return false;
      }
      std::string key = std::to_string(cur->id) + o.kind + o.path + (existed ? "1" : "0");
      if (W.mut_seen.insert(key).second && W.muts.size() < 3000) {
        W.muts.push_back({cur->id, o.kind, rel(o.path), existed, W.eventno});
      }
      return true;
    }

    void set_fd(int fd, std::string const &p, bool wr) {
      if (fd >= 0 && fd < 1024) {
        Quiet q;
        fds[fd].path = p;
        fds[fd].used = true;
        fds[fd].wr = wr;
      }
    }
    bool tracked(int fd) { return fd >= 0 && fd < 1024 && fds[fd].used; }

    int fail(Op const &o) {
      leave(o, -1, o.err);
      errno = o.err;
      return -1;
    }

    int do_open(int dirfd, char const *path, int flags, mode_t mode) {
      if (!W.on || !cur) { return (int)syscall(SYS_openat, dirfd, path, flags, mode); }
      std::string abs;
      {
        Quiet q;
        if (path[0] != '/' && dirfd != AT_FDCWD && tracked(dirfd)) {
          abs = absolutise(fds[dirfd].path + "/" + path);
        } else {
          abs = absolutise(path);
        }
      }
      int acc = flags & O_ACCMODE;
      bool wr = acc != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
      char const *kind = (flags & O_DIRECTORY) ? "opendir" : wr ? "openw" : "openr";
      Op o = enter(kind, abs);
      if (wr) {
        bool ex = exists_raw(abs);
        if (!ex && W.disk_left == 0 && !o.err) {
          o.err = ENOSPC;
          ++W.faultcount["diskfull:create"];
        }
        mutation(o, ex);
      }
      if (o.err) { return fail(o); }
      int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
      int e = errno;
      set_fd(fd, abs, wr);
      leave(o, fd, e);
      errno = e;
      return fd;
    }

    // transfers -------------------------------------------------------------
    long budgeted(long n) {
      if (W.disk_left < 0) { return n; }
      if (n > W.disk_left) {
        ++W.faultcount["diskfull:write"];
        n = (long)W.disk_left;
      }
      return n;
    }
    void charge(long n) {
      if (W.disk_left >= 0 && n > 0) { W.disk_left -= n; }
    }

    long do_write(int fd, void const *buf, size_t n) {
      if (!W.on || !cur || !tracked(fd)) { return syscall(SYS_write, fd, buf, n); }
      Op o = enter("write", fds[fd].path, (long)n);
      mutation(o, true);
      if (o.err && o.lim < 0) { return fail(o); }
      long m = (long)n;
      if (o.lim >= 0 && o.lim < m) { m = o.lim; }
      long b = budgeted(m);
      if (b == 0 && m > 0) {
        o.err = ENOSPC;
        return fail(o);
      }
      m = b;
      long r = m > 0 ? syscall(SYS_write, fd, buf, m) : 0;
      int e = errno;
      charge(r);
      if (r > 0) {
        Quiet q;
        hash_bytes(W.hash, buf, (size_t)r);
      }
      leave(o, r, e);
      errno = e;
      return r;
    }
    long do_read(int fd, void *buf, size_t n) {
      if (!W.on || !cur || !tracked(fd)) { return syscall(SYS_read, fd, buf, n); }
      Op o = enter("read", fds[fd].path, (long)n);
      if (o.err) { return fail(o); }
      size_t m = n;
      if (o.lim >= 0 && (size_t)o.lim < m) { m = (size_t)(o.lim ? o.lim : 1); }
      long r = syscall(SYS_read, fd, buf, m);
      int e = errno;
      leave(o, r, e);
      errno = e;
      return r;
    }

    DIR *register_dir(DIR *d, std::string const &abs) {
      if (!d) { return d; }
      Quiet q;
      static auto rd = real<dirent *(*)(DIR *)>("readdir");
      DirState s;
      s.path = abs;
      while (dirent *e = rd(d)) { s.entries.push_back(*e); }
      std::sort(s.entries.begin(), s.entries.end(), [](dirent const &a, dirent const &b) {
        return strcmp(a.d_name, b.d_name) < 0;
      });
      if (W.dir_shuffle) {
        for (size_t i = s.entries.size(); i > 1; --i) {
          std::swap(s.entries[i - 1], s.entries[W.dir_rng.below(i)]);
        }
      }
      for (size_t i = 0; i != s.entries.size(); ++i) { s.entries[i].d_ino = 1000 + i; }
      dirs[d] = std::move(s);
      return d;
    }
    dirent *do_readdir(DIR *d) {
      static auto rd = real<dirent *(*)(DIR *)>("readdir");
      if (!W.on || !cur) { return rd(d); }
      auto it = dirs.find(d);
      if (it == dirs.end()) { return rd(d); }
      Op o = enter("readdir", it->second.path);
      if (o.err) {
        fail(o);
        return nullptr;
      }
      it = dirs.find(d);
      dirent *e = nullptr;
      if (it->second.pos < it->second.entries.size()) { e = &it->second.entries[it->second.pos++]; }
      int keep = errno;
      leave(o, e ? 1 : 0, 0);
      errno = keep;
      return e;
    }

    // clock -------------------------------------------------------------------
    bool simclock() { return (W.on && cur) || W.light; }
    void clock_read(bool wall_clock) {
      Quiet q;
      if (!W.stall && W.tick_max > 0) { advance((long long)W.clock_rng.below((uint64_t)W.tick_max + 1)); }
      if (wall_clock) {
        ++W.wall_reads;
        for (auto &j : W.jumps) {
          if (j.first == W.wall_reads) {
            W.wall += j.second;
            ++W.faultcount[j.second < 0 ? "clock-jump-back" : "clock-jump-forward"];
            logev("!clockjump " + std::to_string(j.second));
          }
        }
      }
    }
    void do_sleep(long long us) {
      Quiet q;
      if (W.light) {
        advance(us);
        return;
      }
      if (!W.stall) {
        // at least one tick later
        cur->wake = W.mono + (us > 0 ? us : 1);
      } else {
        ++W.faultcount["clock-stall-sleep"];
      }
      if (W.actors.size() == 1 && !W.stall) { advance(cur->wake - W.mono); }
    }
  } // namespace

  void log_event(std::string const &e) { logev(e); }
  uint64_t event_hash() { return W.hash; }
  void set_alloc_active(bool on) { heap::active = on; }
  uint64_t alloc_count() { return heap::count; }

  namespace {
    void setup_common(json const &sc) {
      if (sc.contains("clock")) {
        auto &c = sc["clock"];
        W.wall = c.value("start_us", W.wall);
        W.tick_max = c.value("tick_us", W.tick_max);
        W.stall = c.value("stall", false);
        W.clock_rng = Rng(c.value("seed", 1));
        for (auto &j : c.value("jumps", json::array())) { W.jumps.push_back({j[0].get<long>(), j[1].get<long long>()}); }
      }
      W.ent = Rng(sc.value("entropy", 1));
      W.ent_const = sc.value("entropy_const", false);
      if (sc.contains("readdir_seed")) {
        W.dir_shuffle = true;
        W.dir_rng = Rng(sc["readdir_seed"].get<uint64_t>());
      }
      W.disk_left = sc.value("disk_bytes", -1ll);
      W.max_ops = sc.value("max_ops", 200000l);
      W.trace_on = sc.value("trace", false);
      if (sc.contains("mem")) {
        auto &m = sc["mem"];
        heap::fill_mode = m.value("fill", 0);
        heap::fill_seed = m.value("seed", 88172645463325252ull) | 1;
        heap::layout = m.value("layout", 0ull);
        heap::fail_at = m.value("fail_at", 0ull);
        heap::fail_len = m.value("fail_len", 1ull);
        heap::fail_min = m.value("fail_min", 0ull);
      }
    }
    ActorBody *the_body = nullptr;
    void *actor_main(void *p) {
      Actor *a = static_cast<Actor *>(p);
      {
        std::unique_lock<std::mutex> lk(W.m);
        a->cv.wait(lk, [&] { return W.turn == a->id; });
      }
      cur = a;
      try {
        heap::active = true;
        a->rc = (*the_body)(a->spec, a->out);
        heap::active = false;
        a->status = "exit";
      } catch (std::exception &e) {
        heap::active = false;
        a->status = "exception";
        a->what = e.what();
        a->rc = 250;
      } catch (...) {
        heap::active = false;
        a->status = "exception";
        a->what = "unknown";
        a->rc = 251;
      }
      {
        std::unique_lock<std::mutex> lk(W.m);
        a->st = St::done;
        logev("#done " + std::to_string(a->id) + " " + a->status + " " + std::to_string(a->rc));
        hand_over(lk, choose(-2));
      }
      for (;;) { pause(); } // threads end with the process: no destructor runs
    }
  } // namespace

  void begin_light(json const &sc) {
    setup_common(sc);
    W.light = true;
  }

  void run_world(json const &sc, ActorBody body, json &result) {
    the_body = &body;
    setup_common(sc);
    std::string cwd = sc["cwd"].get<std::string>();
    if (chdir(cwd.c_str()) != 0) {
      result["harness_error"] = "chdir";
      return;
    }
    W.root = cwd;
    W.area = sc.value("area", cwd); // what may be written to
    for (auto &f : sc.value("faults", json::array())) {
      Fault x;
      x.actor = f.value("actor", -1);
      x.op = f.value("op", "*");
      x.path = f.value("path", "");
      x.act = f.value("act", "err");
      x.nth = f.value("nth", 1l);
      x.len = f.value("len", 1l);
      x.arg = f.value("arg", 0l);
      x.err = f.value("err", EIO);
      W.faults.push_back(x);
    }
    if (sc.contains("sched")) {
      auto &s = sc["sched"];
      if (s.contains("seed")) {
        W.sched_random = true;
        W.sched_rng = Rng(s["seed"].get<uint64_t>());
        W.sched_p = s.value("p", 0.2);
      }
      for (auto &e : s.value("switches", json::array())) { W.sched_list.push_back({e[0].get<long>(), e[1].get<int>()}); }
    }
    int id = 0;
    for (auto &a : sc["actors"]) {
      auto p = std::make_unique<Actor>();
      p->id = id++;
      p->spec = a;
      for (auto &x : a.value("after", json::array())) { p->after.push_back(x.get<int>()); }
      W.actors.push_back(std::move(p));
    }
    for (auto &a : W.actors) {
      a->stack = mmap(
          reinterpret_cast<void *>(0x300000000000ull + (uint64_t)a->id * (STACK * 2)), STACK,
          PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
      if (heap::fill_mode > 1) { // stale stack content
        char *top = static_cast<char *>(a->stack) + STACK;
        size_t n = 256 << 10;
        heap::paint(top - n, n);
      }
      pthread_attr_t at;
      pthread_attr_init(&at);
      pthread_attr_setstack(&at, a->stack, STACK);
      pthread_create(&a->th, &at, actor_main, a.get());
    }
    W.on = true;
    {
      std::unique_lock<std::mutex> lk(W.m);
      hand_over(lk, choose(-2));
      W.main_cv.wait(lk, [&] { return W.turn == -1; });
    }
    W.on = false;
    json acts = json::array();
    for (auto &a : W.actors) {
      acts.push_back({{"status", a->status}, {"rc", a->rc}, {"what", a->what}, {"ops", a->ops}, {"out", a->out}});
    }
    result["actors"] = acts;
    result["hash"] = std::to_string(W.hash);
    result["switches_taken"] = W.sched_taken;
    result["switches"] = W.switches;
    result["events"] = W.eventno;
    result["covered_us"] = W.covered;
    result["end_us"] = W.wall;
    result["wall_reads"] = W.wall_reads;
    result["muts"] = W.muts;
    result["escapes"] = W.escapes;
    result["opcount"] = W.opcount;
    result["faultcount"] = W.faultcount;
    result["budget_hit"] = W.budget_hit;
    result["allocs"] = heap::count;
    result["alloc_failed"] = heap::failed;
    result["filled_bytes"] = heap::filled_bytes;
    json ff = json::array();
    for (auto &f : W.faults) { ff.push_back({f.seen, f.fired}); }
    result["fault_fired"] = ff;
    if (W.trace_on) { result["trace"] = W.trace; }
  }

  // ------------------------------------------------------------------ server
  int serve(int argc, char **argv, std::function<void(json const &, json &)> handler) {
    if (!getenv("GSIM_NOPERS")) {
      int p = personality(0xffffffff);
      if (p != -1 && !(p & ADDR_NO_RANDOMIZE)) {
        if (personality(p | ADDR_NO_RANDOMIZE) != -1) {
          setenv("GSIM_NOPERS", "1", 1);
          execv("/proc/self/exe", argv);
        }
      }
    }
    (void)argc;
    setenv("TZ", "UTC", 1);
    setenv("OMP_NUM_THREADS", "1", 1);
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    tzset();
    signal(SIGPIPE, SIG_IGN);
    static char *line = nullptr;
    static size_t cap = 64u << 20;
    line = static_cast<char *>(mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    size_t have = 0;
    for (;;) {
      char *nl;
      size_t scanned = 0;
      while (!(nl = static_cast<char *>(memchr(line + scanned, '\n', have - scanned)))) {
        scanned = have;
        if (have == cap) { return 96; }
        long r = syscall(SYS_read, 0, line + have, cap - have);
        if (r < 0 && errno == EINTR) { continue; }
        if (r <= 0) { return 0; }
        have += (size_t)r;
      }
      int pfd[2];
      if (pipe(pfd) != 0) { return 95; }
      int out = memfd_create("gsim-out", 0);
      pid_t pid = fork();
      if (pid == 0) {
        close(pfd[0]);
        setpgid(0, 0);
        *nl = 0;
        json result;
        int resfd = pfd[1];
        dup2(resfd, 900);
        close(resfd);
        resfd = 900;
        int null = open("/dev/null", O_RDONLY);
        dup2(null, 0);
        dup2(out, 1);
        dup2(out, 2);
        close(out);
        close(null);
        try {
          json sc = json::parse(line);
          struct rlimit rl;
          rl.rlim_cur = rl.rlim_max = sc.value("cpu_s", 60);
          rl.rlim_max += 5;
          setrlimit(RLIMIT_CPU, &rl);
          struct rlimit co = {0, 0};
          setrlimit(RLIMIT_CORE, &co);
          handler(sc, result);
        } catch (std::exception &e) {
          result["harness_error"] = std::string("exception: ") + e.what();
        }
        heap::active = false;
        std::cout.flush();
        fflush(nullptr);
        std::string s = result.dump(-1, ' ', true, json::error_handler_t::replace);
        size_t off = 0;
        while (off < s.size()) {
          long w = syscall(SYS_write, resfd, s.data() + off, s.size() - off);
          if (w <= 0) { break; }
          off += (size_t)w;
        }
        _exit(0);
      }
      syscall(SYS_close, pfd[1]);
      // relay: length-prefixed
      static char *res = nullptr;
      static size_t rcap = 256u << 20;
      if (!res) {
        res = static_cast<char *>(mmap(nullptr, rcap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
      }
      size_t rn = 0;
      bool timeout = false;
      for (;;) {
        struct pollfd pf = {pfd[0], POLLIN, 0};
        int pr = poll(&pf, 1, 300000);
        if (pr == 0) {
          kill(pid, SIGKILL);
          timeout = true;
          break;
        }
        long r = syscall(SYS_read, pfd[0], res + rn, rcap - rn);
        if (r < 0 && errno == EINTR) { continue; }
        if (r <= 0) { break; }
        rn += (size_t)r;
      }
      syscall(SYS_close, pfd[0]);
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      // stdout/stderr of the run
      static char so[65536];
      long sn = 0;
      {
        long total = lseek(out, 0, SEEK_END);
        long from = total > 60000 ? total - 60000 : 0;
        sn = pread(out, so, 60000, from);
        if (sn < 0) { sn = 0; }
        syscall(SYS_close, out);
      }
      char head[128];
      int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
      int hn = snprintf(
          head, sizeof head, "R %zu %ld %d %d %d\n", rn, sn, sig, WIFEXITED(st) ? WEXITSTATUS(st) : -1, timeout ? 1 : 0);
      auto put = [](char const *p, size_t n) {
        while (n) {
          long w = syscall(SYS_write, 1, p, n);
          if (w <= 0) { _exit(94); }
          p += w;
          n -= (size_t)w;
        }
      };
      put(head, (size_t)hn);
      put(res, rn);
      put(so, (size_t)sn);
      size_t used = size_t(nl - line) + 1;
      memmove(line, line + used, have - used);
      have -= used;
    }
  }
} // namespace gsim

// ====================================================================== hooks
using namespace gsim;
extern "C" {
// the simulated process ends here; the simulator goes on
void exit(int code) {
  if (!cur || !W.on) {
    real<void (*)(int)>("exit")(code);
    abort();
  }
  heap::active = false;
  Actor *a = cur;
  std::cout.flush();
  a->rc = code & 255;
  a->status = "exit";
  {
    std::unique_lock<std::mutex> lk(W.m);
    a->st = St::done;
    logev("#done " + std::to_string(a->id) + " " + a->status + " " + std::to_string(a->rc));
    hand_over(lk, choose(-2));
  }
  for (;;) { pause(); }
}
unsigned long gsim_cpu_entropy(void) { return W.ent_const ? 7 : (unsigned long)W.ent.next(); }
unsigned gsim_pid(void) { return cur ? 4000u + (unsigned)cur->id : 4000u; }

int open(char const *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  return do_open(AT_FDCWD, path, flags, mode);
}
int open64(char const *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  return do_open(AT_FDCWD, path, flags, mode);
}
int openat(int d, char const *path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  return do_open(d, path, flags, mode);
}
int __openat_2(int d, char const *path, int flags) { return do_open(d, path, flags, 0); }
int creat(char const *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

int close(int fd) {
  if (!W.on || !cur || !tracked(fd)) { return (int)syscall(SYS_close, fd); }
  Op o = enter(fds[fd].wr ? "closew" : "closer", fds[fd].path);
  if (o.lost) {
    struct stat st;
    if (fds[fd].wr && syscall(SYS_fstat, fd, &st) == 0) { (void)!syscall(SYS_ftruncate, fd, st.st_size * (o.lim % 100) / 100); }
  }
  fds[fd].used = false;
  int r = (int)syscall(SYS_close, fd);
  int e = errno;
  if (o.err) { return fail(o); }
  leave(o, r, e);
  errno = e;
  return r;
}
static FILE *do_fopen(char const *path, char const *mode) {
  static auto f = real<FILE *(*)(char const *, char const *)>("fopen");
  if (!W.on || !cur) { return f(path, mode); }
  bool wr = mode[0] != 'r' || strchr(mode, '+');
  std::string abs;
  {
    Quiet q;
    abs = absolutise(path);
  }
  Op o = enter(wr ? "openw" : "openr", abs);
  if (wr) {
    bool ex = exists_raw(abs);
    if (!ex && W.disk_left == 0 && !o.err) {
      o.err = ENOSPC;
      ++W.faultcount["diskfull:create"];
    }
    mutation(o, ex);
  }
  if (o.err) {
    fail(o);
    return nullptr;
  }
  FILE *fp = f(path, mode);
  int e = errno;
  if (fp) { set_fd(fileno(fp), abs, wr); }
  leave(o, fp ? 0 : -1, e);
  errno = e;
  return fp;
}
FILE *fopen(char const *p, char const *m) { return do_fopen(p, m); }
FILE *fopen64(char const *p, char const *m) { return do_fopen(p, m); }
int fclose(FILE *fp) {
  static auto f = real<int (*)(FILE *)>("fclose");
  int fd = fp ? fileno(fp) : -1;
  if (!W.on || !cur || !tracked(fd)) { return f(fp); }
  Op o = enter(fds[fd].wr ? "closew" : "closer", fds[fd].path);
  fflush(fp);
  if (o.lost) {
    struct stat st;
    if (fds[fd].wr && syscall(SYS_fstat, fd, &st) == 0) { (void)!syscall(SYS_ftruncate, fd, st.st_size * (o.lim % 100) / 100); }
  }
  fds[fd].used = false;
  int r = f(fp);
  int e = errno;
  if (o.err) {
    fail(o);
    return EOF;
  }
  leave(o, r, e);
  errno = e;
  return r;
}
ssize_t write(int fd, void const *b, size_t n) { return do_write(fd, b, n); }
ssize_t writev(int fd, struct iovec const *iov, int cnt) {
  if (!W.on || !cur || !tracked(fd)) { return syscall(SYS_writev, fd, iov, cnt); }
  std::string buf;
  {
    Quiet q;
    for (int i = 0; i != cnt; ++i) { buf.append(static_cast<char *>(iov[i].iov_base), iov[i].iov_len); }
  }
  ssize_t r = do_write(fd, buf.data(), buf.size());
  int e = errno;
  {
    Quiet q;
    std::string().swap(buf);
  }
  errno = e;
  return r;
}
// libc-internal stdio (fwrite on a FILE) does not pass here; nothing in the
// code under test uses it for files.
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t sendfile(int out, int in, off_t *off, size_t n) {
  if (!W.on || !cur || !tracked(out)) { return syscall(SYS_sendfile, out, in, off, n); }
  Op o = enter("sendfile", fds[out].path, (long)n);
  mutation(o, true);
  if (o.err) { return fail(o); }
  long m = (long)n;
  if (o.lim >= 0 && o.lim < m) { m = o.lim ? o.lim : 1; }
  long b = budgeted(m);
  if (b == 0 && m > 0) {
    // nothing to copy from an empty source is fine on a full disk
    struct stat st;
    if (syscall(SYS_fstat, in, &st) == 0 && st.st_size > 0) {
      o.err = ENOSPC;
      return fail(o);
    }
  }
  long r = syscall(SYS_sendfile, out, in, off, b);
  int e = errno;
  charge(r);
  leave(o, r, e);
  errno = e;
  return r;
}
ssize_t sendfile64(int out, int in, off_t *off, size_t n) { return sendfile(out, in, off, n); }
ssize_t copy_file_range(int in, off_t *io, int out, off_t *oo, size_t n, unsigned fl) {
  if (!W.on || !cur || !tracked(out)) { return syscall(SYS_copy_file_range, in, io, out, oo, n, fl); }
  Op o = enter("sendfile", fds[out].path, (long)n);
  mutation(o, true);
  if (o.err) { return fail(o); }
  long m = (long)n;
  if (o.lim >= 0 && o.lim < m) { m = o.lim ? o.lim : 1; }
  m = budgeted(m);
  if (m == 0 && n > 0) {
    o.err = ENOSPC;
    return fail(o);
  }
  long r = syscall(SYS_copy_file_range, in, io, out, oo, m, fl);
  int e = errno;
  charge(r);
  leave(o, r, e);
  errno = e;
  return r;
}
#define PATHOP(KIND, PATH)                                                                                             \
  std::string abs;                                                                                                     \
  {                                                                                                                    \
    Quiet q;                                                                                                           \
    abs = absolutise(PATH);                                                                                            \
  }                                                                                                                    \
  Op o = enter(KIND, abs);

int mkdir(char const *p, mode_t m) {
  if (!W.on || !cur) { return (int)syscall(SYS_mkdir, p, m); }
  PATHOP("mkdir", p)
  bool ex = exists_raw(abs);
  if (!ex && W.disk_left == 0 && !o.err) {
    o.err = ENOSPC;
    ++W.faultcount["diskfull:create"];
  }
  if (!ex) { mutation(o, ex); }
  if (o.err) { return fail(o); }
  int r = (int)syscall(SYS_mkdir, p, m);
  int e = errno;
  leave(o, r, e);
  errno = e;
  return r;
}
int rename(char const *a, char const *b) {
  if (!W.on || !cur) { return (int)syscall(SYS_rename, a, b); }
  PATHOP("rename", b)
  std::string src;
  {
    Quiet q;
    src = absolutise(a);
  }
  bool sx = exists_raw(src);
  mutation(o, exists_raw(abs));
  if (sx) {
    std::string keepk = o.kind, keepp = o.path;
    Op o2 = o;
    {
      Quiet q;
      o2.kind = "rename-from";
      o2.path = src;
    }
    mutation(o2, true);
    if (o2.err && !o.err) { o.err = o2.err; }
  }
  if (o.err) { return fail(o); }
  int r = (int)syscall(SYS_rename, a, b);
  int e = errno;
  {
    Quiet q;
    logev("rename-from " + rel(src));
  }
  leave(o, r, e);
  errno = e;
  return r;
}
int link(char const *a, char const *b) {
  if (!W.on || !cur) { return (int)syscall(SYS_link, a, b); }
  PATHOP("link", b)
  mutation(o, exists_raw(abs));
  if (o.err) { return fail(o); }
  int r = (int)syscall(SYS_link, a, b);
  int e = errno;
  leave(o, r, e);
  errno = e;
  return r;
}
int symlink(char const *a, char const *b) {
  if (!W.on || !cur) { return (int)syscall(SYS_symlink, a, b); }
  PATHOP("symlink", b)
  mutation(o, exists_raw(abs));
  if (o.err) { return fail(o); }
  int r = (int)syscall(SYS_symlink, a, b);
  int e = errno;
  leave(o, r, e);
  errno = e;
  return r;
}
int unlink(char const *p) {
  if (!W.on || !cur) { return (int)syscall(SYS_unlink, p); }
  PATHOP("unlink", p)
  if (exists_raw(abs)) { mutation(o, true); }
  if (o.err) { return fail(o); }
  int r = (int)syscall(SYS_unlink, p);
  int e = errno;
  leave(o, r, e);
  errno = e;
  return r;
}
int fchmodat(int d, char const *p, mode_t m, int fl) {
  if (!W.on || !cur) { return (int)syscall(SYS_fchmodat, d, p, m, fl); }
  std::string abs;
  {
    Quiet q;
    abs = d == AT_FDCWD || p[0] == '/' ? absolutise(p) : std::string(p);
  }
  Op o = enter("chmod", abs);
  if (exists_raw(abs)) { mutation(o, true); }
  if (o.err) { return fail(o); }
  int r = (int)syscall(SYS_fchmodat, d, p, m, fl);
  int e = errno;
  leave(o, r, e);
  errno = e;
  return r;
}
int chmod(char const *p, mode_t m) { return fchmodat(AT_FDCWD, p, m, 0); }
int fchmod(int fd, mode_t m) {
  if (!W.on || !cur || !tracked(fd)) { return (int)syscall(SYS_fchmod, fd, m); }
  Op o = enter("chmod", fds[fd].path);
  mutation(o, true);
  if (o.err) { return fail(o); }
  int r = (int)syscall(SYS_fchmod, fd, m);
  int e = errno;
  leave(o, r, e);
  errno = e;
  return r;
}
int rmdir(char const *p) {
  if (!W.on || !cur) { return (int)syscall(SYS_rmdir, p); }
  PATHOP("rmdir", p)
  if (exists_raw(abs)) { mutation(o, true); }
  if (o.err) { return fail(o); }
  int r = (int)syscall(SYS_rmdir, p);
  int e = errno;
  leave(o, r, e);
  errno = e;
  return r;
}
int unlinkat(int d, char const *p, int fl) {
  if (!W.on || !cur) { return (int)syscall(SYS_unlinkat, d, p, fl); }
  std::string abs;
  {
    Quiet q;
    abs = (p[0] != '/' && d != AT_FDCWD && tracked(d)) ? absolutise(fds[d].path + "/" + p) : absolutise(p);
  }
  Op o = enter((fl & AT_REMOVEDIR) ? "rmdir" : "unlink", abs);
  if (exists_raw(abs)) { mutation(o, true); }
  if (o.err) { return fail(o); }
  int r = (int)syscall(SYS_unlinkat, d, p, fl);
  int e = errno;
  leave(o, r, e);
  errno = e;
  return r;
}
int remove(char const *p) {
  int r = unlink(p);
  if (r < 0 && (errno == EISDIR || errno == EPERM)) { r = rmdir(p); }
  return r;
}
int truncate(char const *p, off_t n) {
  if (!W.on || !cur) { return (int)syscall(SYS_truncate, p, n); }
  PATHOP("truncate", p)
  mutation(o, true);
  if (o.err) { return fail(o); }
  int r = (int)syscall(SYS_truncate, p, n);
  int e = errno;
  leave(o, r, e);
  errno = e;
  return r;
}
int ftruncate(int fd, off_t n) {
  if (!W.on || !cur || !tracked(fd)) { return (int)syscall(SYS_ftruncate, fd, n); }
  Op o = enter("truncate", fds[fd].path);
  mutation(o, true);
  if (o.err) { return fail(o); }
  int r = (int)syscall(SYS_ftruncate, fd, n);
  int e = errno;
  leave(o, r, e);
  errno = e;
  return r;
}
static int statlike(char const *p, struct stat *st, int flags) {
  if (!W.on || !cur) { return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, flags); }
  PATHOP("stat", p)
  if (o.err) { return fail(o); }
  int r = (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, flags);
  int e = errno;
  leave(o, r, e);
  errno = e;
  return r;
}
int stat(char const *p, struct stat *st) { return statlike(p, st, 0); }
int lstat(char const *p, struct stat *st) { return statlike(p, st, AT_SYMLINK_NOFOLLOW); }
int stat64(char const *p, struct stat64 *st) { return statlike(p, reinterpret_cast<struct stat *>(st), 0); }
int lstat64(char const *p, struct stat64 *st) {
  return statlike(p, reinterpret_cast<struct stat *>(st), AT_SYMLINK_NOFOLLOW);
}
int fsync(int fd) {
  if (!W.on || !cur || !tracked(fd)) { return (int)syscall(SYS_fsync, fd); }
  Op o = enter("fsync", fds[fd].path);
  if (o.err) { return fail(o); }
  leave(o, 0, 0);
  return 0;
}
int fdatasync(int fd) { return fsync(fd); }
char *getcwd(char *buf, size_t n) {
  static auto f = real<char *(*)(char *, size_t)>("getcwd");
  if (!W.on || !cur) { return f(buf, n); }
  Op o = enter("getcwd", W.root);
  if (o.err) {
    fail(o);
    return nullptr;
  }
  char *r = f(buf, n);
  leave(o, r ? 0 : -1, errno);
  return r;
}
DIR *opendir(char const *p) {
  static auto f = real<DIR *(*)(char const *)>("opendir");
  if (!W.on || !cur) { return f(p); }
  PATHOP("opendir", p)
  if (o.err) {
    fail(o);
    return nullptr;
  }
  DIR *d = f(p);
  int e = errno;
  register_dir(d, abs);
  leave(o, d ? 0 : -1, e);
  errno = e;
  return d;
}
DIR *fdopendir(int fd) {
  static auto f = real<DIR *(*)(int)>("fdopendir");
  DIR *d = f(fd);
  if (W.on && cur && tracked(fd)) {
    register_dir(d, fds[fd].path);
    fds[fd].used = true;
  }
  return d;
}
dirent *readdir(DIR *d) { return do_readdir(d); }
struct dirent64 *readdir64(DIR *d) { return reinterpret_cast<struct dirent64 *>(do_readdir(d)); }
int closedir(DIR *d) {
  static auto f = real<int (*)(DIR *)>("closedir");
  if (W.on && cur) {
    Quiet q;
    dirs.erase(d);
    int fd = dirfd(d);
    if (tracked(fd)) { fds[fd].used = false; }
  }
  return f(d);
}

// ---- time
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!simclock()) { return (int)syscall(SYS_clock_gettime, id, ts); }
  bool w = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI;
  if (!W.light) {
    Op o = enter(w ? "clock" : "monoclock", W.root);
    clock_read(w);
    leave(o, 0, 0);
  } else {
    clock_read(w);
  }
  long long t = w ? W.wall : W.mono;
  ts->tv_sec = t / 1000000;
  ts->tv_nsec = (t % 1000000) * 1000;
  return 0;
}
int gettimeofday(struct timeval *tv, void *) {
  if (!simclock()) {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
  }
  clock_read(true);
  tv->tv_sec = W.wall / 1000000;
  tv->tv_usec = W.wall % 1000000;
  return 0;
}
time_t time(time_t *t) {
  time_t r;
  if (!simclock()) {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    r = ts.tv_sec;
  } else {
    clock_read(true);
    r = W.wall / 1000000;
  }
  if (t) { *t = r; }
  return r;
}
clock_t clock(void) {
  if (!simclock()) {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts);
    return ts.tv_sec * 1000000 + ts.tv_nsec / 1000;
  }
  clock_read(false);
  return (clock_t)W.mono;
}
int getrusage(__rusage_who_t who, struct rusage *ru) {
  if (!simclock()) { return (int)syscall(SYS_getrusage, who, ru); }
  memset(ru, 0, sizeof *ru);
  clock_read(false);
  ru->ru_utime.tv_sec = W.mono / 1000000;
  ru->ru_utime.tv_usec = W.mono % 1000000;
  return 0;
}
int nanosleep(struct timespec const *a, struct timespec *rem) {
  if (!simclock()) { return (int)syscall(SYS_nanosleep, a, rem); }
  long long us = (long long)a->tv_sec * 1000000 + (a->tv_nsec + 999) / 1000;
  if (W.light) {
    do_sleep(us);
    return 0;
  }
  Op o = enter("sleep", W.root);
  if (o.err == EINTR) {
    // interrupted at once; the rest is left to sleep
    if (rem) { *rem = *a; }
    return fail(o);
  }
  do_sleep(us);
  leave(o, 0, 0);
  yield_point();
  return 0;
}
int clock_nanosleep(clockid_t, int flags, struct timespec const *a, struct timespec *rem) {
  if (!simclock()) { return (int)syscall(SYS_clock_nanosleep, CLOCK_MONOTONIC, flags, a, rem); }
  if (flags & TIMER_ABSTIME) {
    long long t = (long long)a->tv_sec * 1000000 + a->tv_nsec / 1000;
    struct timespec d;
    long long us = t - W.mono;
    if (us < 0) { us = 0; }
    d.tv_sec = us / 1000000;
    d.tv_nsec = (us % 1000000) * 1000;
    return nanosleep(&d, nullptr) ? errno : 0;
  }
  return nanosleep(a, rem) ? errno : 0;
}
int usleep(useconds_t us) {
  struct timespec d = {us / 1000000, (long)(us % 1000000) * 1000};
  return nanosleep(&d, nullptr);
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!simclock()) { return syscall(SYS_getrandom, b, n, fl); }
  auto c = static_cast<unsigned char *>(b);
  for (size_t i = 0; i != n; ++i) { c[i] = (unsigned char)W.ent.next(); }
  return (ssize_t)n;
}
int getentropy(void *b, size_t n) {
  getrandom(b, n, 0);
  return 0;
}
uint32_t arc4random(void) { return (uint32_t)W.ent.next(); }
pid_t getpid(void) { return (W.on && cur) ? (pid_t)(4000 + cur->id) : (pid_t)syscall(SYS_getpid); }
}

// std::random_device of the code under test draws from the simulated entropy
#include <random>
namespace std {
  void random_device::_M_init(std::string const &) {}
  void random_device::_M_fini() {}
  random_device::result_type random_device::_M_getval() {
    return W.ent_const ? 5u : (unsigned)W.ent.next();
  }
  double random_device::_M_getentropy() const noexcept { return 32; }
} // namespace std
