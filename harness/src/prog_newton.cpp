// Drives the nonlinear solver and the time evolution with a monitored problem
// whose evaluations and linearisations the simulator can make fail.
#include "Exception.hpp"
#include "Newtonsolver.hpp"
#include "problems.hpp"
#include "sim_heap.hpp"
#include <map>

using namespace gsim;

namespace {
  struct Violations {
    json list = json::array();
    void add(std::string const &prop, std::string const &key, std::string const &msg) {
      if (list.size() < 20) { list.push_back({{"prop", prop}, {"key", key}, {"msg", msg}}); }
    }
  };
  std::map<std::string, long> faultcount;
  long events = 0;
  double model_time = 0;
  bool tracing = false;
  json trace = json::array();
  void ev(std::string const &s) {
    ++events;
    if (tracing && trace.size() < 3000) { trace.push_back(s); }
  }
  std::string num(double x) {
    char b[40];
    snprintf(b, sizeof b, "%.17g", x);
    return b;
  }

  // the undisturbed problem -------------------------------------------------
  struct Inner {
    virtual ~Inner() = default;
    virtual Eigen::Index size() const = 0;
    virtual void prepare(double t0, double t1, CRef last, CRef u) = 0;
    virtual void evaluate(Ref out, double t0, double t1, CRef last, CRef x, CRef u) const = 0;
    virtual void jacobian(Aux::Matrixhandler &h, double t0, double t1, CRef last, CRef x, CRef u) const = 0;
    virtual bool deterministic() const { return true; }
  };

  struct Synthetic : Inner {
    Eigen::Index n, m;
    std::string family;
    double strength;
    bool redraw;
    Vec c, a, b, d, s0, s1, w;
    std::vector<std::vector<std::pair<Eigen::Index, double>>> k;
    Eigen::MatrixXd g;
    Vec forcing;
    mutable Rng forcing_rng;
    Vec hard;

    explicit Synthetic(json const &j) : forcing_rng(j.value("seed", 1ull) + 99) {
      Rng r(j.value("seed", 1ull));
      n = j.value("n", 3);
      m = j.value("controls", 0);
      family = j.value("family", "mild");
      strength = j.value("strength", 1.0);
      redraw = j.value("redraw", false);
      for (Vec *v : {&c, &a, &b, &d, &s0, &s1, &w}) { v->resize(n); }
      k.resize((size_t)n);
      g = Eigen::MatrixXd::Zero(n, std::max<Eigen::Index>(m, 1));
      for (Eigen::Index i = 0; i != n; ++i) {
        c[i] = r.chance(.3) && !j.value("dynamic", false) ? 0.0 : r.uni(.5, 2);
        a[i] = r.uni(.5, 2);
        b[i] = r.chance(.5) ? 0 : strength * r.uni(0, 1);
        d[i] = r.uni(-.4, .4) * a[i] * strength;
        s0[i] = r.uni(-1, 1);
        s1[i] = r.uni(-1, 1);
        w[i] = r.uni(.1, 2);
        for (Eigen::Index q = 0; q != m; ++q) { g(i, q) = r.uni(-1, 1); }
        for (int e = 0; n > 1 && e != 2; ++e) {
          auto o = (Eigen::Index)r.below((uint64_t)n);
          if (o != i) { k[(size_t)i].push_back({o, r.uni(0, 1)}); }
        }
      }
      forcing = Vec::Zero(n);
    }
    Eigen::Index size() const override { return n; }
    bool deterministic() const override { return !redraw; }
    void prepare(double, double, CRef, CRef) override {
      if (redraw) {
        for (Eigen::Index i = 0; i != n; ++i) { forcing[i] = forcing_rng.uni(-.1, .1); }
      }
    }
    void evaluate(Ref out, double t0, double t1, CRef l, CRef x, CRef u) const override {
      double dt = t1 - t0;
      for (Eigen::Index i = 0; i != n; ++i) {
        double v = a[i] * x[i] + b[i] * x[i] * x[i] * x[i] + d[i] * std::sin(x[i]);
        for (auto &e : k[(size_t)i]) { v += e.second * (x[i] - x[e.first]); }
        double s = s0[i] + s1[i] * std::sin(w[i] * t1) + forcing[i];
        for (Eigen::Index q = 0; q != m; ++q) { s += g(i, q) * u[q]; }
        out[i] = c[i] * (x[i] - l[i]) + dt * (v - s);
      }
      double y = x[0];
      if (family == "noroot") {
        out[0] = std::exp(y) + strength;
      } else if (family == "square") {
        out[0] = (y - l[0] - 1) * (y - l[0] - 1);
      } else if (family == "flat") {
        out[0] = std::pow(y - 10, 3) * 1e-3;
      } else if (family == "atan") {
        out[0] = std::atan(10 * (y - 5));
      } else if (family == "sqrt") {
        out[0] = std::sqrt(y - 1) - 2;
      } else if (family == "log") {
        out[0] = std::log(y) - 3;
      } else if (family == "exp") {
        out[0] = std::exp(5 * y) - 1e6;
      } else if (family == "steep") {
        out[0] = 1e9 * (y * y * y - 2 - .01 * t1);
      } else if (family == "singular" && n > 1) {
        out[1] = out[0] + 1e-3;
      } else if (family == "pole") {
        out[0] = 1 / (y - l[0]) - 2;
      }
    }
    void jacobian(Aux::Matrixhandler &h, double t0, double t1, CRef l, CRef x, CRef) const override {
      double dt = t1 - t0;
      auto row = [&](Eigen::Index i, Eigen::Index to) {
        double v = a[i] + 3 * b[i] * x[i] * x[i] + d[i] * std::cos(x[i]);
        for (auto &e : k[(size_t)i]) {
          v += e.second;
          h.add_to_coefficient(to, e.first, -dt * e.second);
        }
        h.add_to_coefficient(to, i, c[i] + dt * v);
      };
      double y = x[0];
      for (Eigen::Index i = 0; i != n; ++i) {
        if (i == 1 && family == "singular") {
          row(0, 1);
          continue;
        }
        if (i == 0) {
          double v = 0;
          bool mine = true;
          if (family == "noroot") {
            v = std::exp(y);
          } else if (family == "square") {
            v = 2 * (y - l[0] - 1);
          } else if (family == "flat") {
            v = 3e-3 * (y - 10) * (y - 10);
          } else if (family == "atan") {
            v = 10 / (1 + 100 * (y - 5) * (y - 5));
          } else if (family == "sqrt") {
            v = .5 / std::sqrt(y - 1);
          } else if (family == "log") {
            v = 1 / y;
          } else if (family == "exp") {
            v = 5 * std::exp(5 * y);
          } else if (family == "steep") {
            v = 3e9 * y * y;
          } else if (family == "pole") {
            v = -1 / ((y - l[0]) * (y - l[0]));
          } else {
            mine = false;
          }
          if (mine) {
            h.add_to_coefficient(0, 0, v);
            continue;
          }
        }
        row(i, i);
      }
    }
  };

  struct NetInner : Inner {
    std::unique_ptr<Model::Networkproblem> p;
    bool det;
    NetInner(std::unique_ptr<Model::Networkproblem> q, bool d) : p(std::move(q)), det(d) {}
    bool deterministic() const override { return det; }
    Eigen::Index size() const override { return p->get_number_of_states(); }
    void prepare(double t0, double t1, CRef last, CRef u) override { p->prepare_timestep(t0, t1, last, u); }
    void evaluate(Ref out, double t0, double t1, CRef last, CRef x, CRef u) const override { p->evaluate(out, t0, t1, last, x, u); }
    void jacobian(Aux::Matrixhandler &h, double t0, double t1, CRef last, CRef x, CRef u) const override {
      p->d_evaluate_d_new_state(h, t0, t1, last, x, u);
    }
  };

  struct DenseHandler final : Aux::Matrixhandler {
    SpMat dummy;
    Eigen::MatrixXd &m;
    explicit DenseHandler(Eigen::MatrixXd &d) : Aux::Matrixhandler(dummy), m(d) {}
    void add_to_coefficient(Eigen::Index r, Eigen::Index c, double v) override { m(r, c) += v; }
    void set_matrix() override {}
  };

  struct Fault {
    std::string call, act;
    int step, attempt, alen, nth, comp;
    double arg;
    long fired = 0;
    explicit Fault(json const &j) :
        call(j.value("call", "evaluate")), act(j.value("act", "nan")), step(j.value("step", -1)), attempt(j.value("attempt", 1)), alen(j.value("alen", 1)),
        nth(j.value("nth", 0)), comp(j.value("comp", 0)), arg(j.value("arg", 1.0)) {}
  };
  struct InjectedFault : std::runtime_error {
    using std::runtime_error::runtime_error;
  };
  struct Runaway : std::runtime_error {
    using std::runtime_error::runtime_error;
  };

  struct FaultyHandler final : Aux::Matrixhandler {
    SpMat dummy;
    Aux::Matrixhandler &real;
    std::vector<Fault *> const &fs;
    FaultyHandler(Aux::Matrixhandler &h, std::vector<Fault *> const &f) : Aux::Matrixhandler(dummy), real(h), fs(f) {}
    void add_to_coefficient(Eigen::Index r, Eigen::Index c, double v) override {
      for (auto *f : fs) {
        bool here = f->comp < 0 || f->comp == r;
        if (!here) { continue; }
        if (f->act == "nan") { v = std::nan(""); }
        if (f->act == "inf") { v = HUGE_VAL; }
        if (f->act == "zero") { v = 0; }
        if (f->act == "scale") { v *= f->arg; }
        if (f->act == "huge") { v = 1e200; }
        if (f->act == "noise") { v *= 1 + f->arg * std::sin(double(r * 7 + c * 13 + 1)); }
      }
      real.add_to_coefficient(r, c, v);
    }
    void set_matrix() override { real.set_matrix(); }
  };

  // the monitored problem -----------------------------------------------------
  struct Proxy final : Model::Controlcomponent {
    Inner &in;
    Violations &viol;
    std::vector<Fault> faults;
    bool monitor = false;
    bool check_progress = false;
    // expectation
    std::vector<double> T;
    Vec initial;
    std::vector<double> uT;
    Eigen::MatrixXd uV;
    bool has_controls = false;
    int retries = 0, maxit = 0;
    double tol = 0;
    bool simplified = false;
    // state of the monitor
    int step = 0, attempt = 0;
    mutable long evals = 0, jacs = 0, fired = 0;
    mutable long E = 0, J = 0; // within the attempt
    mutable bool disturbed = false, solved_elsewhere = false;
    mutable Vec faulted_at;
    mutable double last_norm = NAN;
    mutable Vec last_arg;
    double p0 = 0, p1 = 0;
    Vec plast, pu;
    std::vector<Vec> accepted;
    long attempts = 0, retried = 0, judged = 0, max_attempt = 0;
    mutable uint64_t h = 1469598103934665603ull;

    Proxy(Inner &i, Violations &v) : in(i), viol(v) {}

    std::vector<Fault *> matching(std::string const &call, long nth) const {
      std::vector<Fault *> r;
      for (auto &f : const_cast<Proxy *>(this)->faults) {
        if (f.call != call) { continue; }
        if (f.step >= 0 && f.step != step) { continue; }
        if (f.attempt > 0 && (attempt < f.attempt || attempt >= f.attempt + f.alen)) { continue; }
        if (f.nth > 0 && f.nth != nth) { continue; }
        ++f.fired;
        ++fired;
        ++faultcount[f.call + ":" + f.act];
        ev("fault " + f.call + " " + f.act);
        r.push_back(&f);
      }
      return r;
    }

    double residual(CRef x) const {
      Vec F(x.size());
      try {
        in.evaluate(F, p0, p1, plast, x, pu);
      } catch (std::exception &) { return std::nan(""); }
      return F.norm();
    }

    void judge_accepted(CRef x) {
      if (!finite(x)) {
        viol.add("C06", "not-finite", "step " + std::to_string(step) + ": the accepted state is not finite");
        return;
      }
      double r = residual(x);
      bool ok = r <= tol * (1 + 1e-9);
      if (!ok && solved_elsewhere && bits_equal(faulted_at, x)) { ok = true; } // the disturbed equations were solved
      if (!ok) {
        viol.add("C06", "residual", "step " + std::to_string(step) + ", attempt " + std::to_string(attempt) + ": the accepted state has residual " + num(r) + ", tolerance " + num(tol));
      }
    }

    void judge_progress(CRef x) {
      if (!check_progress || disturbed || attempt != 1 || in.size() > 45 || judged >= 12) { return; }
      // independent undamped Newton iteration with differenced derivatives
      Eigen::Index n = in.size();
      Vec y = plast, F(n);
      Eigen::MatrixXd D(n, n);
      in.evaluate(F, p0, p1, plast, y, pu);
      int r = 0;
      Eigen::PartialPivLU<Eigen::MatrixXd> lu;
      while (!(F.norm() <= tol)) {
        if (r == 0 || !simplified) {
          Vec A(n), B(n);
          for (Eigen::Index c = 0; c != n; ++c) {
            double hh = 1e-6 * std::max(1.0, std::abs(y[c])), keep = y[c];
            y[c] = keep + hh;
            double up = y[c];
            in.evaluate(A, p0, p1, plast, y, pu);
            y[c] = keep - hh;
            double lo = y[c];
            in.evaluate(B, p0, p1, plast, y, pu);
            y[c] = keep;
            D.col(c) = (A - B) / (up - lo);
          }
          lu.compute(D);
        }
        Vec s = -lu.solve(F);
        if (!finite(s)) { return; }
        y += s;
        in.evaluate(F, p0, p1, plast, y, pu);
        if (!finite(F)) { return; }
        Vec bar = -lu.solve(F);
        if (!(bar.norm() <= .25 * s.norm())) { return; } // no clear-cut expectation
        if (++r > 12) { return; }
      }
      if (r > maxit - 3) { return; }
      ++judged;
      (void)x;
      if (E > 2 * r + 4 || J > 2 * r + 4) {
        viol.add(
            "C21", "slow", "step " + std::to_string(step) + " took " + std::to_string(E) + " evaluations and " + std::to_string(J) + " linearisations, Newton's method needs " + std::to_string(r) + " iterations");
      }
    }

    void finish_step(CRef x) { // step `step` was accepted with x
      judge_accepted(x);
      judge_progress(x);
      accepted.push_back(x);
    }

    void prepare_timestep(double t0, double t1, CRef last, CRef u) override {
      AllocScope off(false);
      if (++attempts > 100000) { throw Runaway("runaway"); }
      if (monitor) {
        if (attempt > 0 && E == 0) { viol.add("C07", "announced-twice", "step " + std::to_string(step) + " was announced again before anything was evaluated"); }
        int N = (int)T.size();
        bool next = step + 1 < N && t1 == T[(size_t)step + 1] && t0 == T[(size_t)step];
        bool same = step >= 1 && t1 == T[(size_t)step] && t0 == T[(size_t)step - 1];
        if (next) {
          if (step == 0) {
            if (!bits_equal(last, initial)) { viol.add("C07", "start", "the first step does not start from the initial state"); }
          } else {
            finish_step(last);
          }
          ++step;
          attempt = 1;
        } else if (same) {
          ++attempt;
          ++retried;
          if (!bits_equal(last, plast)) { viol.add("C07", "retry-state", "step " + std::to_string(step) + ", attempt " + std::to_string(attempt) + " does not start from the last accepted state"); }
        } else {
          viol.add("C07", "times", "after step " + std::to_string(step) + " a step from " + num(t0) + " to " + num(t1) + " was announced");
          throw Runaway("times");
        }
        max_attempt = std::max<long>(max_attempt, attempt);
        long bound = simplified ? 2l * retries + 2 : (long)retries + 2;
        if (attempt > bound) { viol.add("C07", "attempts", "step " + std::to_string(step) + " is attempted " + std::to_string(attempt) + " times with " + std::to_string(retries) + " retries configured"); }
        if (attempt > bound + 5) { throw Runaway("attempts"); }
        if (has_controls) {
          Vec e = interpolate(uT, uV, t1);
          double scale = 1e-9 * (1 + e.cwiseAbs().maxCoeff() + uV.cwiseAbs().maxCoeff());
          if (u.size() != e.size() || !((u - e).cwiseAbs().maxCoeff() <= scale)) {
            viol.add("C07", "controls", "step " + std::to_string(step) + " at time " + num(t1) + " got controls that are not the interpolated ones");
          }
        } else if (u.size() != 0) {
          viol.add("C07", "controls", "controls were made up");
        }
      } else {
        ++attempt;
        if (step == 0) { step = 1; }
      }
      ev("prepare " + num(t0) + " -> " + num(t1) + " attempt " + std::to_string(attempt));
      p0 = t0, p1 = t1, plast = last, pu = u;
      E = J = 0;
      disturbed = solved_elsewhere = false;
      auto fs = matching("prepare", 1);
      for (auto *f : fs) {
        disturbed = true;
        if (f->act == "throw") { throw InjectedFault("injected into prepare_timestep"); }
      }
      AllocScope on(true);
      in.prepare(t0, t1, last, u);
    }

    void evaluate(Ref out, double t0, double t1, CRef last, CRef x, CRef u) const override {
      AllocScope off(false);
      if (++evals > 300000) { throw Runaway("runaway"); }
      ++E;
      if (monitor) {
        if (step == 0 || t0 != p0 || t1 != p1 || !bits_equal(last, plast) || !bits_equal(u, pu)) {
          viol.add("C07", "unannounced", "an evaluation in step " + std::to_string(step) + " uses other times, last state or controls than announced");
        }
        if (E == 1 && !bits_equal(x, plast)) {
          viol.add("C07", "attempt-start", "step " + std::to_string(step) + ", attempt " + std::to_string(attempt) + ": the attempt does not start from the last accepted state");
        }
      }
      for (Eigen::Index i = 0; i != x.size(); ++i) {
        double v = x[i];
        hash_bytes(h, &v, 8);
      }
      auto fs = matching("evaluate", E);
      for (auto *f : fs) {
        disturbed = true;
        if (f->act == "throw") { throw InjectedFault("injected into evaluate"); }
      }
      {
        AllocScope on(true);
        in.evaluate(out, t0, t1, last, x, u);
      }
      for (auto *f : fs) {
        Eigen::Index c = out.size() ? f->comp % out.size() : 0;
        if (f->act == "nan") { out[c] = std::nan(""); }
        if (f->act == "inf") { out[c] = (f->arg < 0 ? -1 : 1) * HUGE_VAL; }
        if (f->act == "huge") { out[c] = 1e300; }
        if (f->act == "const") { out[c] = f->arg; }
        if (f->act == "allnan") { out.setConstant(std::nan("")); }
        if (f->act == "offset") { out[c] += f->arg; }
      }
      last_norm = out.norm();
      if (tracing) { ev("evaluate -> " + num(last_norm)); } else { ++events; }
      last_arg = x;
      if (!fs.empty() && last_norm <= tol) {
        solved_elsewhere = true;
        faulted_at = x;
      }
    }

    void d_evaluate_d_new_state(Aux::Matrixhandler &hd, double t0, double t1, CRef last, CRef x, CRef u) const override {
      AllocScope off(false);
      if (++jacs > 300000) { throw Runaway("runaway"); }
      ++J;
      ev("linearise");
      auto fs = matching("jacobian", J);
      if (!fs.empty() && step > 0) { disturbed = true; }
      for (auto *f : fs) {
        if (f->act == "throw") { throw InjectedFault("injected into the linearisation"); }
      }
      AllocScope on(true);
      if (fs.empty()) {
        in.jacobian(hd, t0, t1, last, x, u);
      } else {
        FaultyHandler fh(hd, fs);
        in.jacobian(fh, t0, t1, last, x, u);
      }
    }
    void d_evaluate_d_last_state(Aux::Matrixhandler &, double, double, CRef, CRef, CRef) const override { throw Runaway("unexpected"); }
    void d_evaluate_d_control(Aux::Matrixhandler &, double, double, CRef, CRef, CRef) const override { throw Runaway("unexpected"); }
    Eigen::Index set_control_indices(Eigen::Index i) override { return i; }
    void set_initial_controls(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
    void set_lower_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
    void set_upper_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
    void save_controls_to_json(Aux::InterpolatingVector_Base const &, nlohmann::json &) const override {}
    void setup() override {}
    std::string componentclass() const override { return "x"; }
    std::string componenttype() const override { return "x"; }
    std::string id() const override { return "x"; }
  };

  // a problem of the scenario ---------------------------------------------------
  struct Built {
    std::unique_ptr<Inner> inner;
    Vec initial;
    std::vector<double> T;
    bool has_controls = false;
    std::vector<double> uT;
    Eigen::MatrixXd uV;
  };

  Built build(json const &spec) {
    Built b;
    if (spec["kind"] == "net") {
      Loaded l = load_network(spec["dir"].get<std::string>());
      b.inner = std::make_unique<NetInner>(std::move(l.problem), spec.value("deterministic", true));
      b.initial = l.initial;
      for (Eigen::Index i = 0; i != l.state_times.size(); ++i) { b.T.push_back(l.state_times[i]); }
      b.has_controls = l.controls.get_inner_length() > 0;
      if (b.has_controls) {
        auto p = l.controls.get_interpolation_points();
        b.uV.resize(p.size(), l.controls.get_inner_length());
        for (Eigen::Index i = 0; i != p.size(); ++i) {
          b.uT.push_back(p[i]);
          b.uV.row(i) = l.controls.vector_at_index(i).transpose();
        }
      }
    } else {
      auto s = std::make_unique<Synthetic>(spec);
      b.T = spec["T"].get<std::vector<double>>();
      Rng r(spec.value("seed", 1ull) + 5);
      b.initial.resize(s->n);
      for (Eigen::Index i = 0; i != s->n; ++i) { b.initial[i] = r.uni(-1, 1) * spec.value("spread", 1.0); }
      if (s->m > 0) {
        b.has_controls = true;
        b.uT = spec["uT"].get<std::vector<double>>();
        b.uV.resize((Eigen::Index)b.uT.size(), s->m);
        for (Eigen::Index i = 0; i != b.uV.rows(); ++i) {
          for (Eigen::Index q = 0; q != s->m; ++q) { b.uV(i, q) = r.uni(-1, 1); }
        }
      }
      b.inner = std::move(s);
    }
    return b;
  }

  struct Out {
    bool ok = false, numerical = false;
    std::string what;
    std::vector<Vec> rows;
    long fired = 0, evals = 0, attempts = 0, retried = 0, judged = 0, max_attempt = 0, alloc_failed = 0;
    std::vector<Vec> accepted;
    uint64_t h = 0;
  };

  Out run_once(Model::Timeevolver &ev, Built &b, json const &cfg, json const &run, Violations &v, bool monitor, bool with_faults) {
    Out o;
    Proxy p(*b.inner, v);
    p.monitor = monitor;
    p.check_progress = monitor && run.value("progress", false);
    p.T = b.T;
    p.initial = b.initial;
    p.has_controls = b.has_controls;
    p.uT = b.uT;
    p.uV = b.uV;
    p.retries = cfg["retries"];
    p.tol = cfg["tolerance"];
    p.simplified = cfg["use_simplified_newton"];
    p.maxit = cfg["maximal_number_of_newton_iterations"];
    if (with_faults) {
      for (auto &f : run.value("faults", json::array())) { p.faults.emplace_back(f); }
    }
    Aux::InterpolatingVector controls;
    if (b.has_controls) {
      controls = Aux::InterpolatingVector(b.uT, b.uV.cols());
      for (Eigen::Index i = 0; i != b.uV.rows(); ++i) { controls.mut_timestep(i) = b.uV.row(i).transpose(); }
    }
    Aux::InterpolatingVector saved(b.T, b.inner->size());
    double const poison = 12345.678;
    for (Eigen::Index i = 0; i != saved.size(); ++i) { saved.mut_timestep(i).setConstant(poison); }
    long fail = with_faults ? run.value("alloc_fail", 0l) : 0;
    if (fail) {
      heap::fail_at = heap::count + (uint64_t)fail;
      heap::fail_len = run.value("alloc_len", 1ull);
    }
    uint64_t before = heap::failed;
    try {
      AllocScope on(true);
      ev.simulate(b.initial, controls, p, saved);
      o.ok = true;
    } catch (std::exception &e) {
      AllocScope off(false);
      o.what = e.what();
      // an exception of the solver itself, within a disturbed attempt
      o.numerical = dynamic_cast<Solver::SolverNumericalProblem *>(&e) != nullptr && p.disturbed;
    } catch (...) {
      o.what = "unknown";
      v.add("C06", "exception-type", "simulate ended with something that is no std::exception");
    }
    heap::fail_at = 0;
    o.alloc_failed = (long)(heap::failed - before);
    o.fired = p.fired;
    o.evals = p.evals;
    o.attempts = p.attempts;
    o.retried = p.retried;
    o.max_attempt = p.max_attempt;
    if (o.what == "runaway") { v.add("C21", "runaway", "the simulation does not end"); }
    for (Eigen::Index i = 0; i != saved.size(); ++i) { o.rows.push_back(saved.vector_at_index(i)); }
    if (monitor && (o.ok || p.step > 0)) {
      int N = (int)b.T.size();
      if (o.ok) {
        if (p.step != N - 1) {
          v.add("C07", "steps", "simulate returned after step " + std::to_string(p.step) + " of " + std::to_string(N - 1));
        } else {
          p.finish_step(o.rows.back());
        }
      }
      if (!bits_equal(o.rows[0], b.initial)) { v.add("C07", "row", "saved row 0 is not the initial state"); }
      for (size_t i = 0; i != p.accepted.size() && i + 1 < o.rows.size(); ++i) {
        if (!bits_equal(o.rows[i + 1], p.accepted[i])) { v.add("C07", "row", "saved row " + std::to_string(i + 1) + " is not the accepted state"); }
      }
      for (size_t i = 0; o.ok && i != o.rows.size(); ++i) {
        if (!finite(o.rows[i])) { v.add("C06", "not-finite", "saved row " + std::to_string(i) + " is not finite"); }
      }
    }
    o.judged = p.judged;
    if (!o.accepted.empty() || !p.accepted.empty()) { model_time += b.T[p.accepted.size()] - b.T[0]; }
    o.accepted = p.accepted;
    o.h = p.h;
    return o;
  }

  bool same_rows(Out const &a, Out const &b, std::string &where) {
    for (size_t i = 0; i != a.rows.size(); ++i) {
      if (!bits_equal(a.rows[i], b.rows[i])) {
        where = "row " + std::to_string(i);
        return false;
      }
    }
    return true;
  }

  void evolve(json const &sc, json &result, Violations &v) {
    json cfg = sc["evolver"];
    auto make = [&] {
      AllocScope on(true);
      return Model::Timeevolver::make_pointer_instance(cfg);
    };
    auto shared = make();
    json outs = json::array();
    uint64_t h = 1469598103934665603ull;
    long evals = 0, fired = 0, retried = 0, judged = 0, alloc = 0, maxa = 0, compared = 0, clean = 0, aborted = 0;
    for (auto &run : sc["runs"]) {
      json const &ps = sc["problems"][run["problem"].get<size_t>()];
      Built b = build(ps);
      Out o = run_once(*shared, b, cfg, run, v, true, true);
      hash_bytes(h, &o.h, 8);
      for (auto &r : o.rows) { hash_vec(h, r); }
      evals += o.evals, fired += o.fired, retried += o.retried, judged += o.judged, alloc += o.alloc_failed, maxa = std::max(maxa, o.max_attempt);
      outs.push_back({{"ok", o.ok}, {"what", o.what}});
      std::string where;
      if (!run.value("alloc_fail", 0l)) {
        // the same on an evolver without history
        auto fresh = make();
        Built b2 = build(ps);
        Out q = run_once(*fresh, b2, cfg, run, v, false, true);
        ++compared;
        // without the monitor steps are not counted, so faults can not be placed
        if (run.value("faults", json::array()).empty()) {
          if (q.ok != o.ok) {
            v.add("C07", "history", "after earlier simulations the run " + std::string(o.ok ? "succeeds" : "fails (" + o.what + ")") + ", on a new evolver it does not");
          } else if (o.ok && !same_rows(o, q, where)) {
            v.add("C07", "history", "after earlier simulations the run gives other states than on a new evolver: " + where);
          }
        }
      }
      if (run.value("transient", false)) {
        auto fresh = make();
        Built b2 = build(ps);
        json plain = run;
        plain["alloc_fail"] = 0;
        Out q = run_once(*fresh, b2, cfg, plain, v, true, false);
        if (q.ok) {
          ++clean;
          if (!o.ok && o.numerical) {
            ++aborted; // singular linearisations and vanishing steps end a simulation at once
          } else if (!o.ok) {
            v.add("C21", "transient", "a transient fault within the configured retries made the simulation fail: " + o.what);
          } else if (b.inner->deterministic() && !same_rows(o, q, where)) {
            v.add("C07", "trace", "failed attempts changed the trajectory: " + where);
          }
        }
      }
      if (run.value("well_posed", false) && run.value("faults", json::array()).empty() && !run.value("alloc_fail", 0l)) {
        if (!o.ok) {
          v.add("C21", "no-success", "a well-posed simulation failed: " + o.what);
        } else if (o.max_attempt > 1 && !cfg["use_simplified_newton"].get<bool>()) {
          v.add("C21", "retried", "an undisturbed well-posed step needed " + std::to_string(o.max_attempt) + " attempts");
        }
      }
    }
    result["runs"] = outs;
    result["hash"] = std::to_string(h);
    result["evals"] = evals;
    result["fired"] = fired;
    result["retried"] = retried;
    result["judged"] = judged;
    result["allocfail"] = alloc;
    result["max_attempt"] = maxa;
    result["compared"] = compared;
    result["clean"] = clean;
    result["aborted"] = aborted;
  }

  void solve(json const &sc, json &result, Violations &v) {
    double tol = sc["evolver"]["tolerance"];
    int maxit = sc["evolver"]["maximal_number_of_newton_iterations"];
    Solver::Newtonsolver shared(tol, maxit);
    std::map<size_t, Built> built;
    json outs = json::array();
    uint64_t h = 1469598103934665603ull;
    long fired = 0, evals = 0, succ = 0, fail = 0, exc = 0, alloc = 0;
    Eigen::Index structure_of = -1;
    for (auto &run : sc["runs"]) {
      auto pi = run["problem"].get<size_t>();
      if (!built.count(pi)) { built[pi] = build(sc["problems"][pi]); }
      Built &b = built[pi];
      Rng r(run.value("seed", 1ull));
      size_t st = 1 + (size_t)r.below(b.T.size() - 1);
      double t0 = b.T[st - 1], t1 = b.T[st];
      Vec last = b.initial, x = b.initial, u;
      if (b.has_controls) { u = interpolate(b.uT, b.uV, t1); }
      double pert = run.value("perturb", 0.0);
      for (Eigen::Index i = 0; i != x.size(); ++i) { x[i] += pert * r.uni(-1, 1) * std::max(1.0, std::abs(x[i])); }
      if (run.value("bad_start", 0) == 1 && x.size()) { x[(Eigen::Index)r.below((uint64_t)x.size())] = std::nan(""); }
      if (run.value("bad_start", 0) == 2 && x.size()) { x[(Eigen::Index)r.below((uint64_t)x.size())] = HUGE_VAL; }
      bool full = run.value("full", true);
      bool newjac = run.value("newjac", true) || structure_of != (Eigen::Index)pi;
      auto once = [&](Solver::Newtonsolver &s, Vec &y, Proxy &p, Solver::Solutionstruct &sol, std::string &what, bool nj, bool prep) -> int {
        p.step = 1;
        try {
          p.prepare_timestep(t0, t1, last, u);
          AllocScope on(true);
          if (prep) { s.evaluate_state_derivative_triplets(p, t0, t1, last, y, u); }
          sol = s.solve(y, p, nj, full, t0, t1, last, u);
          return 0;
        } catch (std::exception &e) {
          AllocScope off(false);
          what = e.what();
          return 1;
        } catch (...) {
          what = "unknown";
          v.add("C06", "exception-type", "solve ended with something that is no std::exception");
          return 2;
        }
      };
      Proxy p(*b.inner, v);
      for (auto &f : run.value("faults", json::array())) { p.faults.emplace_back(f); }
      p.tol = tol;
      Vec start = x;
      Solver::Solutionstruct sol;
      std::string what;
      long af = run.value("alloc_fail", 0l);
      if (af) {
        heap::fail_at = heap::count + (uint64_t)af;
        heap::fail_len = run.value("alloc_len", 1ull);
      }
      uint64_t before = heap::failed;
      bool prep = newjac && r.chance(.5);
      int rc = once(shared, x, p, sol, what, newjac && !prep, prep);
      heap::fail_at = 0;
      alloc += (long)(heap::failed - before);
      structure_of = (rc == 0) ? (Eigen::Index)pi : -1;
      if (p.evals <= 1) { structure_of = -1; } // solved at once: no structure was set
      if (what == "runaway") { v.add("C21", "runaway", "the solver does not end"); }
      fired += p.fired;
      evals += p.evals;
      hash_bytes(h, &p.h, 8);
      if (rc != 0) {
        ++exc;
      } else if (sol.success) {
        ++succ;
        if (!finite(x)) {
          v.add("C06", "not-finite", "solve reports success with a state that is not finite");
        } else {
          double res = p.residual(x);
          bool ok = res <= tol * (1 + 1e-9);
          if (!ok && p.solved_elsewhere && bits_equal(p.faulted_at, x)) { ok = true; }
          if (!ok) { v.add("C06", "residual", "solve reports success, the residual is " + num(res) + ", tolerance " + num(tol)); }
          if (!(sol.residual <= tol)) { v.add("C06", "record", "solve reports success with residual " + num(sol.residual) + ", tolerance " + num(tol)); }
        }
      } else {
        ++fail;
        double res = p.residual(x);
        if (p.fired == 0 && res <= tol * (1 - 1e-9) && sol.used_iterations > 0) { v.add("C21", "missed", "solve reports failure although the residual " + num(res) + " is within the tolerance"); }
      }
      if (rc == 0 && sol.used_iterations > maxit) { v.add("C06", "iterations", "solve used " + std::to_string(sol.used_iterations) + " iterations of " + std::to_string(maxit)); }
      if (p.jacs > maxit + 3) { v.add("C06", "iterations", std::to_string(p.jacs) + " linearisations in one solve, " + std::to_string(maxit) + " iterations are allowed"); }
      if (!full && p.jacs > 3) { v.add("C06", "iterations", std::to_string(p.jacs) + " linearisations in a solve with a frozen one"); }
      // the same with a solver without history
      if (newjac && !af && b.inner->deterministic() && run.value("faults", json::array()).empty()) {
        Solver::Newtonsolver fresh(tol, maxit);
        Proxy q(*b.inner, v);
        q.tol = tol;
        Vec y = start;
        Solver::Solutionstruct sol2;
        std::string what2;
        int rc2 = once(fresh, y, q, sol2, what2, newjac && !prep, prep);
        if (rc2 != rc || (rc == 0 && (sol2.success != sol.success || !bits_equal(x, y)))) {
          v.add("C21", "history", "the outcome of a solve depends on what the solver did before");
        }
      }
      outs.push_back({{"rc", rc}, {"success", rc == 0 && sol.success}, {"what", what}, {"it", sol.used_iterations}});
      hash_vec(h, x);
    }
    result["runs"] = outs;
    result["hash"] = std::to_string(h);
    result["fired"] = fired;
    result["evals"] = evals;
    result["success"] = succ;
    result["failure"] = fail;
    result["exceptions"] = exc;
    result["allocfail"] = alloc;
  }
} // namespace

int main(int argc, char **argv) {
  return gsim::serve(argc, argv, [](json const &sc, json &result) {
    begin_light(sc);
    AllocScope off(false);
    Violations v;
    tracing = sc.value("trace", false);
    try {
      if (sc["mode"] == "evolve") {
        evolve(sc, result, v);
      } else {
        solve(sc, result, v);
      }
    } catch (std::exception &e) {
      set_alloc_active(false);
      result["setup_error"] = e.what();
    }
    result["violations"] = v.list;
    result["faultcount"] = faultcount;
    result["events"] = events;
    result["covered_us"] = (long)(std::min(model_time, 1e12) * 1e6);
    if (tracing) { result["trace"] = trace; }
  });
}
