// Drives the optimiser interface, the state cache and the assembled matrices
// through histories of requests with injected failures.
#include "ControlStateCache.hpp"
#include "ImplicitOptimizer.hpp"
#include "OptimizableObject.hpp"
#include "Optimization_helpers.hpp"
#include "Wrapper.hpp"
#include "problems.hpp"
#include <map>
#include <set>

using namespace gsim;

namespace {
  struct Violations {
    json list = json::array();
    void add(std::string const &prop, std::string const &key, std::string const &msg) {
      if (list.size() < 20) { list.push_back({{"prop", prop}, {"key", key}, {"msg", msg}}); }
    }
  };
  std::map<std::string, long> faultcount, counts;
  long events = 0;
  double model_time = 0;
  bool tracing = false;
  json trace = json::array();
  uint64_t run_hash = 1469598103934665603ull;
  void ev(std::string const &s) {
    ++events;
    if (tracing && trace.size() < 3000) { trace.push_back(s); }
  }
  std::string num(double x) {
    char b[40];
    snprintf(b, sizeof b, "%.12g", x);
    return b;
  }
  struct InjectedFault : std::runtime_error {
    using std::runtime_error::runtime_error;
  };

  // ---------------------------------------------------------------- problems
  struct Inner {
    virtual ~Inner() = default;
    Eigen::Index n = 0, m = 0, k = 0;
    virtual void prepare(double t0, double t1, CRef last, CRef u) = 0;
    virtual void evaluate(Ref out, double t0, double t1, CRef l, CRef x, CRef u) const = 0;
    virtual void d_new(Aux::Matrixhandler &h, double t0, double t1, CRef l, CRef x, CRef u) const = 0;
    virtual void d_last(Aux::Matrixhandler &h, double t0, double t1, CRef l, CRef x, CRef u) const = 0;
    virtual void d_control(Aux::Matrixhandler &h, double t0, double t1, CRef l, CRef x, CRef u) const = 0;
    virtual double cost(double t, CRef x, CRef u) const = 0;
    virtual void cost_x(Aux::Matrixhandler &h, double t, CRef x, CRef u) const = 0;
    virtual void cost_u(Aux::Matrixhandler &h, double t, CRef x, CRef u) const = 0;
    virtual double penalty(double t, CRef x, CRef u) const = 0;
    virtual void penalty_x(Aux::Matrixhandler &h, double t, CRef x, CRef u) const = 0;
    virtual void penalty_u(Aux::Matrixhandler &h, double t, CRef x, CRef u) const = 0;
    virtual void constraint(Ref out, double t, CRef x, CRef u) const = 0;
    virtual void constraint_x(Aux::Matrixhandler &h, double t, CRef x, CRef u) const = 0;
    virtual void constraint_u(Aux::Matrixhandler &h, double t, CRef x, CRef u) const = 0;
    virtual std::unique_ptr<Inner> again() const = 0;
  };

  struct Synthetic final : Inner {
    json spec;
    Vec c, a, b, d, r, s0, s1, w, alpha, target, pen;
    std::vector<std::vector<std::pair<Eigen::Index, double>>> nb;
    Eigen::MatrixXd G, B, Q, A, A2, C, beta; // state/control, bilinear, last*control, constraint matrices, cost
    Eigen::MatrixXd mix;
    explicit Synthetic(json const &j) : spec(j) {
      Rng rg(j.value("seed", 1ull));
      n = j.value("n", 3), m = j.value("controls", 2), k = j.value("constraints", 1);
      double strength = j.value("strength", 1.0), sparse = j.value("sparse", .5);
      for (Vec *v : {&c, &a, &b, &d, &r, &s0, &s1, &w, &alpha, &target, &pen}) { v->resize(n); }
      auto mat = [&](Eigen::Index rows, Eigen::Index cols, double keep) {
        Eigen::MatrixXd M = Eigen::MatrixXd::Zero(rows, cols);
        for (Eigen::Index i = 0; i != rows; ++i) {
          for (Eigen::Index q = 0; q != cols; ++q) {
            double v = rg.uni(-1, 1);
            if (rg.chance(keep)) { M(i, q) = v; }
          }
        }
        return M;
      };
      nb.resize((size_t)n);
      for (Eigen::Index i = 0; i != n; ++i) {
        c[i] = rg.chance(.25) ? 0.0 : rg.uni(.5, 2);
        a[i] = rg.uni(.5, 2);
        b[i] = rg.chance(.5) ? 0 : strength * rg.uni(0, 1);
        d[i] = rg.uni(-.4, .4) * a[i] * strength;
        r[i] = rg.chance(.5) ? 0 : rg.uni(-1, 1);
        s0[i] = rg.uni(-1, 1), s1[i] = rg.uni(-1, 1), w[i] = rg.uni(.1, 2);
        alpha[i] = rg.chance(.4) ? 0 : rg.uni(-1, 2);
        target[i] = rg.uni(-1, 1);
        pen[i] = rg.chance(.5) ? 0 : rg.uni(0, 1);
        for (int e = 0; n > 1 && e != 2; ++e) {
          auto o = (Eigen::Index)rg.below((uint64_t)n);
          if (o != i) { nb[(size_t)i].push_back({o, rg.uni(0, 1)}); }
        }
      }
      G = mat(n, m, .7), B = mat(n, m, .3) * .3, Q = mat(n, m, .3) * .3;
      A = mat(k, n, sparse), A2 = mat(k, n, sparse) * .5, C = mat(k, m, .5);
      beta = mat(m, 3, .8);
      mix = mat(n, m, .3);
    }
    std::unique_ptr<Inner> again() const override { return std::make_unique<Synthetic>(spec); }
    void prepare(double, double, CRef, CRef) override {}
    void evaluate(Ref out, double t0, double t1, CRef l, CRef x, CRef u) const override {
      double dt = t1 - t0;
      for (Eigen::Index i = 0; i != n; ++i) {
        double v = a[i] * x[i] + b[i] * x[i] * x[i] * x[i] + d[i] * std::sin(x[i]) + r[i] * std::sin(l[i]);
        for (auto &e : nb[(size_t)i]) { v += e.second * (x[i] - x[e.first]); }
        double s = s0[i] + s1[i] * std::sin(w[i] * t1);
        for (Eigen::Index q = 0; q != m; ++q) { s += G(i, q) * u[q] + B(i, q) * std::tanh(x[i]) * std::sin(u[q]) + Q(i, q) * std::cos(l[i]) * u[q]; }
        out[i] = c[i] * (x[i] - l[i]) + dt * (v - s);
      }
    }
    void d_new(Aux::Matrixhandler &h, double t0, double t1, CRef, CRef x, CRef u) const override {
      double dt = t1 - t0;
      for (Eigen::Index i = 0; i != n; ++i) {
        double v = a[i] + 3 * b[i] * x[i] * x[i] + d[i] * std::cos(x[i]);
        for (auto &e : nb[(size_t)i]) {
          v += e.second;
          h.add_to_coefficient(i, e.first, -dt * e.second);
        }
        double th = std::tanh(x[i]);
        for (Eigen::Index q = 0; q != m; ++q) { v -= B(i, q) * (1 - th * th) * std::sin(u[q]); }
        h.add_to_coefficient(i, i, c[i]);
        h.add_to_coefficient(i, i, dt * v);
      }
    }
    void d_last(Aux::Matrixhandler &h, double t0, double t1, CRef l, CRef, CRef u) const override {
      double dt = t1 - t0;
      for (Eigen::Index i = 0; i != n; ++i) {
        double v = -c[i] + dt * r[i] * std::cos(l[i]);
        for (Eigen::Index q = 0; q != m; ++q) { v += dt * Q(i, q) * std::sin(l[i]) * u[q]; }
        h.add_to_coefficient(i, i, v);
      }
    }
    void d_control(Aux::Matrixhandler &h, double t0, double t1, CRef l, CRef x, CRef u) const override {
      double dt = t1 - t0;
      for (Eigen::Index i = 0; i != n; ++i) {
        for (Eigen::Index q = 0; q != m; ++q) {
          if (G(i, q) != 0 || B(i, q) != 0 || Q(i, q) != 0) { h.add_to_coefficient(i, q, -dt * (G(i, q) + B(i, q) * std::tanh(x[i]) * std::cos(u[q]) + Q(i, q) * std::cos(l[i]))); }
        }
      }
    }
    double cost(double t, CRef x, CRef u) const override {
      double v = 0;
      for (Eigen::Index i = 0; i != n; ++i) {
        double e = x[i] - target[i] * std::cos(t);
        v += alpha[i] * e * e;
        for (Eigen::Index q = 0; q != m; ++q) { v += mix(i, q) * x[i] * u[q]; }
      }
      for (Eigen::Index q = 0; q != m; ++q) { v += beta(q, 0) * u[q] * u[q] + beta(q, 1) * u[q]; }
      return v;
    }
    void cost_x(Aux::Matrixhandler &h, double t, CRef x, CRef u) const override {
      for (Eigen::Index i = 0; i != n; ++i) {
        double v = 2 * alpha[i] * (x[i] - target[i] * std::cos(t));
        bool any = alpha[i] != 0;
        for (Eigen::Index q = 0; q != m; ++q) {
          v += mix(i, q) * u[q];
          any = any || mix(i, q) != 0;
        }
        if (any) { h.add_to_coefficient(0, i, v); }
      }
    }
    void cost_u(Aux::Matrixhandler &h, double, CRef x, CRef u) const override {
      for (Eigen::Index q = 0; q != m; ++q) {
        double v = 2 * beta(q, 0) * u[q] + beta(q, 1);
        for (Eigen::Index i = 0; i != n; ++i) { v += mix(i, q) * x[i]; }
        h.add_to_coefficient(0, q, v);
      }
    }
    double penalty(double t, CRef x, CRef u) const override {
      double v = 0;
      for (Eigen::Index i = 0; i != n; ++i) { v += pen[i] * std::exp(.5 * x[i]) * (1 + .1 * std::sin(t)); }
      for (Eigen::Index q = 0; q != m; ++q) { v += beta(q, 2) * std::cos(u[q]); }
      return v;
    }
    void penalty_x(Aux::Matrixhandler &h, double t, CRef x, CRef) const override {
      for (Eigen::Index i = 0; i != n; ++i) {
        if (pen[i] != 0) { h.add_to_coefficient(0, i, .5 * pen[i] * std::exp(.5 * x[i]) * (1 + .1 * std::sin(t))); }
      }
    }
    void penalty_u(Aux::Matrixhandler &h, double, CRef, CRef u) const override {
      for (Eigen::Index q = 0; q != m; ++q) {
        if (beta(q, 2) != 0) { h.add_to_coefficient(0, q, -beta(q, 2) * std::sin(u[q])); }
      }
    }
    void constraint(Ref out, double t, CRef x, CRef u) const override {
      for (Eigen::Index j = 0; j != k; ++j) {
        double v = .1 * std::sin(t + (double)j);
        for (Eigen::Index i = 0; i != n; ++i) { v += A(j, i) * x[i] + A2(j, i) * x[i] * x[i]; }
        for (Eigen::Index q = 0; q != m; ++q) { v += C(j, q) * u[q] * u[q]; }
        out[j] = v;
      }
    }
    void constraint_x(Aux::Matrixhandler &h, double, CRef x, CRef) const override {
      for (Eigen::Index j = 0; j != k; ++j) {
        for (Eigen::Index i = 0; i != n; ++i) {
          if (A(j, i) != 0 || A2(j, i) != 0) { h.add_to_coefficient(j, i, A(j, i) + 2 * A2(j, i) * x[i]); }
        }
      }
    }
    void constraint_u(Aux::Matrixhandler &h, double, CRef, CRef u) const override {
      for (Eigen::Index j = 0; j != k; ++j) {
        for (Eigen::Index q = 0; q != m; ++q) {
          if (C(j, q) != 0) { h.add_to_coefficient(j, q, 2 * C(j, q) * u[q]); }
        }
      }
    }
  };

  struct NetInner final : Inner {
    std::string dir;
    std::unique_ptr<Model::Networkproblem> p;
    NetInner(std::string const &dr, std::unique_ptr<Model::Networkproblem> q) : dir(dr), p(std::move(q)) {
      n = p->get_number_of_states(), m = p->get_number_of_controls_per_timepoint(), k = p->get_number_of_constraints_per_timepoint();
    }
    std::unique_ptr<Inner> again() const override {
      std::filesystem::path pd = std::filesystem::path(dir) / "problem";
      return std::make_unique<NetInner>(dir, load_problem(aux_json::get_json_from_file_path(pd / "problem_data.json"), pd));
    }
    void prepare(double t0, double t1, CRef last, CRef u) override { p->prepare_timestep(t0, t1, last, u); }
    void evaluate(Ref o, double t0, double t1, CRef l, CRef x, CRef u) const override { p->evaluate(o, t0, t1, l, x, u); }
    void d_new(Aux::Matrixhandler &h, double t0, double t1, CRef l, CRef x, CRef u) const override { p->d_evaluate_d_new_state(h, t0, t1, l, x, u); }
    void d_last(Aux::Matrixhandler &h, double t0, double t1, CRef l, CRef x, CRef u) const override { p->d_evaluate_d_last_state(h, t0, t1, l, x, u); }
    void d_control(Aux::Matrixhandler &h, double t0, double t1, CRef l, CRef x, CRef u) const override { p->d_evaluate_d_control(h, t0, t1, l, x, u); }
    double cost(double t, CRef x, CRef u) const override { return p->evaluate_cost(t, x, u); }
    void cost_x(Aux::Matrixhandler &h, double t, CRef x, CRef u) const override { p->d_evaluate_cost_d_state(h, t, x, u); }
    void cost_u(Aux::Matrixhandler &h, double t, CRef x, CRef u) const override { p->d_evaluate_cost_d_control(h, t, x, u); }
    double penalty(double t, CRef x, CRef u) const override { return p->evaluate_penalty(t, x, u); }
    void penalty_x(Aux::Matrixhandler &h, double t, CRef x, CRef u) const override { p->d_evaluate_penalty_d_state(h, t, x, u); }
    void penalty_u(Aux::Matrixhandler &h, double t, CRef x, CRef u) const override { p->d_evaluate_penalty_d_control(h, t, x, u); }
    void constraint(Ref o, double t, CRef x, CRef u) const override { p->evaluate_constraint(o, t, x, u); }
    void constraint_x(Aux::Matrixhandler &h, double t, CRef x, CRef u) const override { p->d_evaluate_constraint_d_state(h, t, x, u); }
    void constraint_u(Aux::Matrixhandler &h, double t, CRef x, CRef u) const override { p->d_evaluate_constraint_d_control(h, t, x, u); }
  };

  // faults: rules hold for ever (functions of the controls), armed faults for one request
  struct Rule {
    std::string kind; // "simulation" or "derivative"
    std::string act;
    Eigen::Index comp = 0;
    double above = HUGE_VAL;
    explicit Rule(json const &j) : kind(j.value("kind", "simulation")), act(j.value("act", "nan")), comp(j.value("comp", 0)), above(j.value("above", HUGE_VAL)) {}
    bool holds(CRef u) const { return u.size() && u[comp % u.size()] > above; }
  };
  struct Armed {
    std::string where, act;
    long nth, len;
    Eigen::Index comp;
    explicit Armed(json const &j) : where(j.value("where", "evaluate")), act(j.value("act", "nan")), nth(j.value("nth", 1l)), len(j.value("len", 1l)), comp(j.value("comp", 0)) {}
  };
  struct Switchboard {
    std::vector<Rule> rules;
    std::vector<Armed> armed;
    std::map<std::string, long> calls;
    long fired = 0, total_calls = 0;
    void begin(json const &faults) {
      armed.clear();
      for (auto &f : faults) { armed.emplace_back(f); }
      calls.clear();
      fired = total_calls = 0;
    }
    // returns "", "nan", "const"; throws for "throw"
    Armed const *hit(std::string const &where) {
      // An evaluation that changes its mind in the middle of a step may keep the
      // damping loop of the solver busy for ever. That is the fault's doing.
      if (++total_calls > 200000 && fired) {
        ++fired;
        ++faultcount["given up"];
        throw InjectedFault("runaway");
      }
      long c = ++calls[where];
      for (auto &f : armed) {
        if (f.where == where && c >= f.nth && c < f.nth + f.len) {
          ++fired;
          ++faultcount[where + ":" + f.act];
          ev("fault " + where + " " + f.act);
          if (f.act == "throw") { throw InjectedFault("injected into " + where); }
          return &f;
        }
      }
      return nullptr;
    }
    Rule const *rule(std::string const &kind, CRef u) {
      for (auto &r : rules) {
        if (r.kind == kind && r.holds(u)) {
          ++faultcount["rule " + kind + ":" + r.act];
          if (r.act == "throw") { throw InjectedFault("points like this fail"); }
          return &r;
        }
      }
      return nullptr;
    }
  };

  struct RowKiller final : Aux::Matrixhandler {
    SpMat dummy;
    Aux::Matrixhandler &real;
    Eigen::Index row;
    RowKiller(Aux::Matrixhandler &h, Eigen::Index r) : Aux::Matrixhandler(dummy), real(h), row(r) {}
    void add_to_coefficient(Eigen::Index r, Eigen::Index c, double v) override { real.add_to_coefficient(r, c, r == row ? 0 : v); }
    void set_matrix() override { real.set_matrix(); }
  };
  struct DenseHandler final : Aux::Matrixhandler {
    SpMat dummy;
    Eigen::MatrixXd &m;
    std::set<std::pair<Eigen::Index, Eigen::Index>> places;
    explicit DenseHandler(Eigen::MatrixXd &d) : Aux::Matrixhandler(dummy), m(d) {}
    void add_to_coefficient(Eigen::Index r, Eigen::Index c, double v) override {
      m(r, c) += v;
      places.insert({r, c});
    }
    void set_matrix() override {}
  };
  struct Interrupter final : Aux::Matrixhandler {
    SpMat dummy;
    Aux::Matrixhandler &real;
    long left;
    Interrupter(Aux::Matrixhandler &h, long l) : Aux::Matrixhandler(dummy), real(h), left(l) {}
    void add_to_coefficient(Eigen::Index r, Eigen::Index c, double v) override {
      if (--left < 0) { throw InjectedFault("interrupted refresh"); }
      real.add_to_coefficient(r, c, v);
    }
    void set_matrix() override {}
  };
} // namespace

// A friend of the component base classes, so it can say how many states,
// controls and constraints there are.
class Mock_OptimizableObject final : public Model::OptimizableObject {
public:
  std::unique_ptr<Inner> in;
  Switchboard &sw;
  Mock_OptimizableObject(std::unique_ptr<Inner> i, Switchboard &s) : in(std::move(i)), sw(s) {
    state_startindex = 0, state_afterindex = in->n;
    control_startindex = 0, control_afterindex = in->m;
    constraint_startindex = 0, constraint_afterindex = in->k;
  }
  void prepare_timestep(double t0, double t1, CRef l, CRef u) override {
    AllocScope off(false);
    sw.hit("prepare");
    AllocScope on(true);
    in->prepare(t0, t1, l, u);
  }
  void evaluate(Ref out, double t0, double t1, CRef l, CRef x, CRef u) const override {
    AllocScope off(false);
    ++events;
    auto f = sw.hit("evaluate");
    auto r = sw.rule("simulation", u);
    {
      AllocScope on(true);
      in->evaluate(out, t0, t1, l, x, u);
    }
    if (out.size() == 0) { return; }
    if (r) { out[r->comp % out.size()] = std::nan(""); }
    if (f) {
      if (f->act == "const") {
        out.setConstant(1);
      } else {
        out[f->comp % out.size()] = std::nan("");
      }
    }
  }
  void d_evaluate_d_new_state(Aux::Matrixhandler &h, double t0, double t1, CRef l, CRef x, CRef u) const override {
    Eigen::Index kill = -1;
    {
      AllocScope off(false);
      sw.hit("dnew");
      if (sw.calls["dlast"] > 0) {
        if (auto f = sw.hit("singular")) { kill = f->comp % in->n; }
        if (auto r = sw.rule("singular", u)) { kill = r->comp % in->n; }
      }
    }
    if (kill >= 0) {
      RowKiller k(h, kill);
      in->d_new(k, t0, t1, l, x, u);
    } else {
      in->d_new(h, t0, t1, l, x, u);
    }
  }
  void d_evaluate_d_last_state(Aux::Matrixhandler &h, double t0, double t1, CRef l, CRef x, CRef u) const override {
    {
      AllocScope off(false);
      sw.hit("dlast");
      sw.rule("derivative", u);
    }
    in->d_last(h, t0, t1, l, x, u);
  }
  void d_evaluate_d_control(Aux::Matrixhandler &h, double t0, double t1, CRef l, CRef x, CRef u) const override {
    {
      AllocScope off(false);
      sw.hit("dcontrol");
    }
    in->d_control(h, t0, t1, l, x, u);
  }
  double evaluate_cost(double t, CRef x, CRef u) const override {
    sw.hit("cost");
    return in->cost(t, x, u);
  }
  void d_evaluate_cost_d_state(Aux::Matrixhandler &h, double t, CRef x, CRef u) const override { in->cost_x(h, t, x, u); }
  void d_evaluate_cost_d_control(Aux::Matrixhandler &h, double t, CRef x, CRef u) const override { in->cost_u(h, t, x, u); }
  double evaluate_penalty(double t, CRef x, CRef u) const override {
    sw.hit("penalty");
    return in->penalty(t, x, u);
  }
  void d_evaluate_penalty_d_state(Aux::Matrixhandler &h, double t, CRef x, CRef u) const override { in->penalty_x(h, t, x, u); }
  void d_evaluate_penalty_d_control(Aux::Matrixhandler &h, double t, CRef x, CRef u) const override { in->penalty_u(h, t, x, u); }
  void evaluate_constraint(Ref out, double t, CRef x, CRef u) const override {
    sw.hit("constraint");
    in->constraint(out, t, x, u);
  }
  void d_evaluate_constraint_d_state(Aux::Matrixhandler &h, double t, CRef x, CRef u) const override {
    sw.hit("dconstraint");
    in->constraint_x(h, t, x, u);
  }
  void d_evaluate_constraint_d_control(Aux::Matrixhandler &h, double t, CRef x, CRef u) const override { in->constraint_u(h, t, x, u); }

  Eigen::Index set_state_indices(Eigen::Index i) override { return i; }
  void add_results_to_json(nlohmann::json &) override {}
  void json_save(double, CRef) override {}
  void set_initial_values(Ref, nlohmann::json const &) const override {}
  Eigen::Index set_control_indices(Eigen::Index i) override { return i; }
  void set_initial_controls(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void set_lower_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void set_upper_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void save_controls_to_json(Aux::InterpolatingVector_Base const &, nlohmann::json &) const override {}
  Eigen::Index set_constraint_indices(Eigen::Index i) override { return i; }
  void set_constraint_lower_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void set_constraint_upper_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void setup() override {}

private:
  std::string componentclass() const override { return "x"; }
  std::string componenttype() const override { return "x"; }
  std::string id() const override { return "x"; }
};

namespace {
  struct Series { // values on a grid
    std::vector<double> t;
    Eigen::MatrixXd v;
    Aux::InterpolatingVector vec() const {
      Aux::InterpolatingVector r(t, v.cols());
      for (Eigen::Index i = 0; i != v.rows(); ++i) { r.mut_timestep(i) = v.row(i).transpose(); }
      return r;
    }
    Vec at(double x) const { return v.cols() ? interpolate(t, v, x) : Vec(0); }
  };

  Vec as_vec(std::vector<double> const &t) { return Eigen::Map<Vec const>(t.data(), (Eigen::Index)t.size()); }

  struct Setup {
    std::unique_ptr<Inner> proto;
    json evolver;
    std::vector<double> T, U, K; // state, control and constraint times
    Vec initial;
    Series start, lb, ub, clb, cub;
    std::vector<Rule> rules;
  };

  Series random_series(Rng &r, std::vector<double> const &t, Eigen::Index inner, double lo, double hi, bool linear) {
    Series s;
    s.t = t;
    s.v.resize((Eigen::Index)t.size(), inner);
    for (Eigen::Index q = 0; q != inner; ++q) {
      double a = r.uni(lo, hi), b = r.uni(lo, hi);
      for (Eigen::Index i = 0; i != s.v.rows(); ++i) {
        double x = r.uni(lo, hi);
        s.v(i, q) = linear ? a + (b - a) * (double)i / std::max<double>(1, (double)s.v.rows() - 1) : x;
      }
    }
    return s;
  }

  // what the input files say about one element at a time
  bool lookup(json const &file, std::string const &section, std::string const &type, std::string const &id, double t, double &out) {
    if (!file.contains(section) || !file[section].contains(type)) { return false; }
    for (auto &e : file[section][type]) {
      if (e["id"] != id) { continue; }
      auto &d = e["data"];
      std::vector<double> ts;
      Eigen::MatrixXd v((Eigen::Index)d.size(), 1);
      for (size_t i = 0; i != d.size(); ++i) {
        ts.push_back(d[i]["time"]);
        v((Eigen::Index)i, 0) = d[i]["values"][0];
      }
      out = interpolate(ts, v, t)[0];
      return true;
    }
    return false;
  }

  void check_network_bounds(Setup const &s, Loaded &l, std::filesystem::path const &pd, Series const &start, Violations &v, std::map<std::string, json> const &files) {
    auto &p = *l.problem;
    auto m = p.get_number_of_controls_per_timepoint();
    if (m == 0) { return; }
    // which control is which: controls holding their own number
    Aux::InterpolatingVector marker(s.U, m);
    for (Eigen::Index i = 0; i != marker.size(); ++i) {
      for (Eigen::Index q = 0; q != m; ++q) { marker.mut_timestep(i)[q] = (double)q; }
    }
    nlohmann::json who;
    p.save_controls_to_json(marker, who);
    long seen = 0;
    for (auto &type : who["connections"].items()) {
      for (auto &e : type.value()) {
        auto q = (Eigen::Index)std::lround(e["data"][0]["values"][0].get<double>());
        std::string id = e["id"];
        ++seen;
        for (size_t i = 0; i != s.U.size(); ++i) {
          struct {
            char const *file;
            Series const *have;
          } const pairs[] = {{"control", &start}, {"lower_bounds", &s.lb}, {"upper_bounds", &s.ub}};
          for (auto &pr : pairs) {
            double want;
            if (!lookup(files.at(pr.file), "connections", type.key(), id, s.U[i], want)) { continue; }
            double got = pr.have->v((Eigen::Index)i, q);
            if (!(std::abs(got - want) <= 1e-9 * (1 + std::abs(want)))) {
              v.add("C15", "bounds-input", std::string(pr.file) + " of " + id + " at " + num(s.U[i]) + " is " + num(want) + " in the file, " + num(got) + " for the optimiser");
              return;
            }
          }
        }
      }
    }
    if (seen != m) { v.add("C15", "bounds-input", std::to_string(seen) + " named controls of " + std::to_string(m)); }
    (void)pd;
  }

  Setup make_setup(json const &spec, Violations &v) {
    Setup s;
    s.evolver = spec["evolver"];
    Rng r(spec.value("gridseed", 1ull));
    for (auto &j : spec.value("rules", json::array())) { s.rules.emplace_back(j); }
    if (spec["kind"] == "syn") {
      s.proto = std::make_unique<Synthetic>(spec);
      s.T = spec["T"].get<std::vector<double>>();
      s.U = spec["U"].get<std::vector<double>>();
      std::vector<double> S = spec.contains("S") ? spec["S"].get<std::vector<double>>() : s.U; // grid of the starting values
      s.initial.resize(s.proto->n);
      for (Eigen::Index i = 0; i != s.initial.size(); ++i) { s.initial[i] = r.uni(-1, 1); }
      s.start = random_series(r, S, s.proto->m, -1, 1, false);
      s.lb = random_series(r, S, s.proto->m, -5, -2, false);
      s.ub = random_series(r, S, s.proto->m, 2, 5, false);
    } else {
      std::string dir = spec["dir"];
      Loaded l = load_network(dir);
      if (l.settings.contains("tolerance") && !spec["evolver"].contains("tolerance")) { s.evolver["tolerance"] = l.settings["tolerance"]; }
      for (Eigen::Index i = 0; i != l.state_times.size(); ++i) { s.T.push_back(l.state_times[i]); }
      auto pts = l.controls.get_interpolation_points();
      for (Eigen::Index i = 0; i != pts.size(); ++i) { s.U.push_back(pts[i]); }
      s.initial = l.initial;
      s.start.t = s.lb.t = s.ub.t = s.U;
      auto m = l.controls.get_inner_length();
      s.start.v.resize((Eigen::Index)s.U.size(), m);
      for (Eigen::Index i = 0; i != s.start.v.rows(); ++i) { s.start.v.row(i) = l.controls.vector_at_index(i).transpose(); }
      s.proto = std::make_unique<NetInner>(dir, std::move(l.problem));
    }
    for (auto &i : spec["K"]) {
      auto idx = 1 + i.get<size_t>() % (s.T.size() - 1);
      s.K.push_back(s.T[idx]);
    }
    std::sort(s.K.begin(), s.K.end());
    s.K.erase(std::unique(s.K.begin(), s.K.end()), s.K.end());
    if (spec["kind"] == "syn") {
      std::vector<double> S = s.K;
      if (spec.value("wide_bounds", false) && s.K.size()) {
        S = {s.K.front() - 1, .5 * (s.K.front() + s.K.back()) - .1, s.K.back() + 2};
      }
      s.clb = random_series(r, S, s.proto->k, -5, 0, false);
      s.cub = random_series(r, S, s.proto->k, 0, 5, false);
    } else {
      std::string dir = spec["dir"];
      std::filesystem::path pd = std::filesystem::path(dir) / "problem";
      auto l = load_network(dir);
      auto &p = *l.problem;
      auto m = p.get_number_of_controls_per_timepoint(), k = p.get_number_of_constraints_per_timepoint();
      std::map<std::string, json> files;
      for (auto nm : {"lower_bounds", "upper_bounds", "constraint_lower_bounds", "constraint_upper_bounds", "control"}) {
        files[nm] = aux_json::get_json_from_file_path(pd / (std::string(nm) + ".json"));
      }
      Aux::InterpolatingVector lb(s.U, m), ub(s.U, m), clb(s.K, k), cub(s.K, k);
      Optimization::initialize_bounds(p, lb, files["lower_bounds"], ub, files["upper_bounds"], clb, files["constraint_lower_bounds"], cub, files["constraint_upper_bounds"]);
      auto take = [](Aux::InterpolatingVector const &x, std::vector<double> const &t) {
        Series q;
        q.t = t;
        q.v.resize((Eigen::Index)t.size(), x.get_inner_length());
        for (Eigen::Index i = 0; i != q.v.rows(); ++i) { q.v.row(i) = x.vector_at_index(i).transpose(); }
        return q;
      };
      s.lb = take(lb, s.U), s.ub = take(ub, s.U), s.clb = take(clb, s.K), s.cub = take(cub, s.K);
      check_network_bounds(s, l, pd, s.start, v, files);
      // constraint bounds: each row of the bounds is the input of one element
      std::set<std::string> used;
      for (Eigen::Index q = 0; q != k; ++q) {
        bool found = false;
        for (auto &type : files["constraint_lower_bounds"]["nodes"].items()) {
          for (auto &e : type.value()) {
            bool ok = true;
            for (size_t i = 0; ok && i != s.K.size(); ++i) {
              double a, b;
              ok = lookup(files["constraint_lower_bounds"], "nodes", type.key(), e["id"], s.K[i], a) && lookup(files["constraint_upper_bounds"], "nodes", type.key(), e["id"], s.K[i], b)
                   && std::abs(a - s.clb.v((Eigen::Index)i, q)) <= 1e-9 * (1 + std::abs(a)) && std::abs(b - s.cub.v((Eigen::Index)i, q)) <= 1e-9 * (1 + std::abs(b));
            }
            if (ok && !found && !used.count(e["id"])) {
              found = true;
              used.insert(e["id"]);
            }
          }
        }
        if (!found && s.K.size()) { v.add("C15", "constraint-bounds-input", "constraint " + std::to_string(q) + " has bounds that are in no input: first " + num(s.clb.v(0, q)) + ", " + num(s.cub.v(0, q))); }
      }
    }
    return s;
  }

  struct Instance {
    Switchboard sw;
    Ipopt::SmartPtr<Optimization::IpoptWrapper> w;
    Optimization::ImplicitOptimizer *opt = nullptr;
    Ipopt::Index n = 0, m = 0, nnz = 0;
    explicit Instance(Setup const &s) {
      sw.rules = s.rules;
      AllocScope on(true);
      auto prob = std::make_unique<Mock_OptimizableObject>(s.proto->again(), sw);
      auto cache = std::make_unique<Optimization::ControlStateCache>(Model::Timeevolver::make_pointer_instance(s.evolver));
      auto o = std::make_unique<Optimization::ImplicitOptimizer>(
          std::move(prob), std::move(cache), as_vec(s.T), as_vec(s.U), as_vec(s.K), s.initial, s.start.vec(), s.lb.vec(), s.ub.vec(), s.clb.vec(), s.cub.vec());
      opt = o.get();
      w = new Optimization::IpoptWrapper(std::move(o));
      Ipopt::Index h;
      Ipopt::TNLP::IndexStyleEnum st;
      w->get_nlp_info(n, m, nnz, h, st);
    }
  };

  double const POISON = 8.7654321e77;

  struct Answer {
    int ok = -1; // 1 success, 0 failure, 2 exception
    Vec v;
    std::string what;
  };

  Answer ask(Instance &I, std::string const &req, double const *x, bool newx) {
    Answer a;
    AllocScope on(true);
    try {
      bool r = false;
      if (req == "f") {
        a.v = Vec::Constant(1, POISON);
        r = I.w->eval_f(I.n, x, newx, a.v[0]);
      } else if (req == "grad") {
        a.v = Vec::Constant(I.n, POISON);
        r = I.w->eval_grad_f(I.n, x, newx, a.v.data());
      } else if (req == "g") {
        a.v = Vec::Constant(I.m, POISON);
        r = I.w->eval_g(I.n, x, newx, I.m, a.v.data());
      } else if (req == "jac") {
        a.v = Vec::Constant(I.nnz, POISON);
        double d = 0;
        r = I.w->eval_jac_g(I.n, x, newx, I.m, I.nnz, nullptr, nullptr, I.nnz ? a.v.data() : &d);
      }
      a.ok = r ? 1 : 0;
    } catch (std::exception &e) {
      AllocScope off(false);
      a.ok = 2;
      a.what = e.what();
    } catch (...) { a.ok = 2; }
    return a;
  }

  bool close(CRef a, CRef b, double rel) {
    if (a.size() != b.size()) { return false; }
    if (a.size() == 0) { return true; }
    double scale = std::max(1e-8, b.cwiseAbs().maxCoeff());
    for (Eigen::Index i = 0; i != a.size(); ++i) {
      if (!(std::abs(a[i] - b[i]) <= rel * scale)) { return false; }
    }
    return true;
  }
  std::string show(CRef a, CRef b) {
    for (Eigen::Index i = 0; i != a.size() && i != b.size(); ++i) {
      if (!(std::abs(a[i] - b[i]) <= 1e-9 * (std::abs(a[i]) + std::abs(b[i])))) { return "entry " + std::to_string(i) + " is " + num(a[i]) + " instead of " + num(b[i]); }
    }
    return "different sizes";
  }

  std::vector<Vec> make_points(json const &list, Setup const &s, bool net) {
    std::vector<Vec> pts;
    Vec base(s.proto->m * (Eigen::Index)s.U.size());
    for (size_t i = 0; i != s.U.size(); ++i) { base.segment((Eigen::Index)i * s.proto->m, s.proto->m) = s.start.at(s.U[i]); }
    for (auto &p : list) {
      Vec x = base;
      long of = p.value("of", -1l);
      if (of >= 0 && of < (long)pts.size()) { x = pts[(size_t)of]; }
      if (p.contains("seed")) {
        Rng r(p["seed"].get<uint64_t>());
        double sc = p.value("scale", 1.0);
        for (Eigen::Index i = 0; i != x.size(); ++i) { x[i] = net ? std::max(0.0, x[i] + sc * r.uni(-.3, 1)) : x[i] + sc * r.uni(-1, 1); }
      }
      if (p.contains("comp") && x.size()) {
        long c = p["comp"].get<long>();
        x[c % x.size()] += p.value("delta", 1.0);
      }
      pts.push_back(x);
    }
    return pts;
  }

  // ------------------------------------------------------------------ C14
  void history(json const &sc, Violations &v) {
    Setup s = make_setup(sc["problem"], v);
    bool net = sc["problem"]["kind"] == "net";
    auto pts = make_points(sc["points"], s, net);
    Instance H(s);
    std::map<std::pair<std::string, size_t>, Answer> fresh;
    auto expected = [&](std::string const &req, size_t p) -> Answer & {
      auto key = std::make_pair(req, p);
      auto it = fresh.find(key);
      if (it != fresh.end()) { return it->second; }
      Instance F(s);
      F.sw.begin(json::array());
      Vec x = pts[p];
      return fresh[key] = ask(F, req, x.data(), true);
    };
    Vec buffer = pts.empty() ? Vec() : pts[0];
    std::vector<std::unique_ptr<Vec>> keep;
    double const *last_ptr = nullptr;
    Vec last_x;
    bool any = false, loose = false, computed = false;
    // a simulation that failed is remembered as failed, also if the reason was passing
    std::set<std::vector<double>> gave_up;
    size_t bad_answers = 0;
    Ipopt::IpoptData const *nodata = nullptr;
    for (auto &st : sc["steps"]) {
      std::string req = st["req"];
      size_t pi = st.value("point", 0ul) % pts.size();
      Vec const &x = pts[pi];
      ++counts["requests"];
      if (req == "info") {
        Ipopt::Index n, m, nz, h;
        Ipopt::TNLP::IndexStyleEnum sty;
        H.w->get_nlp_info(n, m, nz, h, sty);
        if (n != H.n || m != H.m || nz != H.nnz) { v.add("C14", "info", "the problem size changed during the history"); }
        continue;
      }
      if (req == "bounds" || req == "start") {
        Instance F(s);
        Vec a(H.n), b(H.n), c(H.m), d(H.m), a2(H.n), b2(H.n), c2(H.m), d2(H.m);
        if (req == "bounds") {
          H.w->get_bounds_info(H.n, a.data(), b.data(), H.m, c.data(), d.data());
          F.w->get_bounds_info(H.n, a2.data(), b2.data(), H.m, c2.data(), d2.data());
          if (!bits_equal(a, a2) || !bits_equal(b, b2) || !bits_equal(c, c2) || !bits_equal(d, d2)) { v.add("C14", "bounds", "the bounds changed during the history"); }
        } else {
          H.w->get_starting_point(H.n, true, a.data(), false, nullptr, nullptr, H.m, false, nullptr);
          F.w->get_starting_point(H.n, true, a2.data(), false, nullptr, nullptr, H.m, false, nullptr);
          if (!bits_equal(a, a2)) { v.add("C14", "start", "the starting point changed during the history"); }
        }
        continue;
      }
      if (req == "structure") {
        Instance F(s);
        Eigen::VectorXi r(H.nnz), c(H.nnz), r2(H.nnz), c2(H.nnz);
        int dummy = 0;
        auto q = [&](Eigen::VectorXi &z) { return z.size() ? z.data() : &dummy; };
        H.w->eval_jac_g(H.n, nullptr, false, H.m, H.nnz, q(r), q(c), nullptr);
        F.w->eval_jac_g(H.n, nullptr, false, H.m, H.nnz, q(r2), q(c2), nullptr);
        if (r != r2 || c != c2) { v.add("C14", "structure", "the announced structure changed during the history"); }
        continue;
      }
      H.sw.begin(st.value("faults", json::array()));
      if (req == "finalize") {
        auto &e = expected("f", pi);
        auto &eg = expected("g", pi);
        Vec g = eg.ok == 1 ? eg.v : Vec::Zero(H.m);
        double obj = e.ok == 1 ? e.v[0] : 1.25;
        bool threw = false;
        try {
          AllocScope on(true);
          H.w->finalize_solution((Ipopt::SolverReturn)st.value("status", 0), H.n, x.data(), nullptr, nullptr, H.m, g.data(), nullptr, obj, nodata, nullptr);
        } catch (std::exception &) { threw = true; }
        if (!threw) {
          if (!bits_equal(H.w->get_best_solution(), x)) { v.add("C14", "finalize", "the stored solution is not the given one"); }
          if (!bits_equal(H.w->get_best_constraints(), g)) { v.add("C14", "finalize", "the stored constraint values are not the given ones"); }
          if (H.w->get_best_objective_value() != obj) { v.add("C14", "finalize", "the stored objective is not the given one"); }
          if (H.sw.fired == 0 && e.ok == 1) {
            double have = H.w->get_best_cost_value() + H.w->get_best_penalty_value();
            if (!(std::abs(have - e.v[0]) <= 1e-7 * std::max(1e-6, std::abs(e.v[0])) + 1e-9 * std::abs(H.w->get_best_cost_value()))) {
              v.add("C14", "finalize", "stored cost and penalty " + num(have) + " are not the objective " + num(e.v[0]) + " at the solution");
            }
          }
        }
        loose = H.sw.fired > 0;
        any = false; // the next request announces its point again
        continue;
      }
      bool changed = !any || !bits_equal(last_x, x);
      bool newx = changed || st.value("newx", false);
      double const *ptr;
      if (!changed && !st.value("newbuf", false)) {
        ptr = last_ptr;
      } else if (st.value("newbuf", false)) {
        keep.push_back(std::make_unique<Vec>(x));
        ptr = keep.back()->data();
      } else {
        buffer = x;
        ptr = buffer.data();
      }
      any = true;
      last_x = x, last_ptr = ptr;
      if (newx) { computed = false; }
      std::vector<double> xkey(x.begin(), x.end());
      Answer a = ask(H, req, ptr, newx);
      bool fired = H.sw.fired > 0;
      Answer &e = expected(req, pi);
      ev(req + " point " + std::to_string(pi) + (newx ? " new" : "") + " -> " + std::to_string(a.ok) + " expected " + std::to_string(e.ok) + (fired ? " (fault)" : ""));
      if (newx || fired) { loose = fired; }
      if (a.ok == 1) {
        computed = true;
        gave_up.erase(xkey);
        hash_vec(run_hash, a.v);
        ++counts["answered"];
        if (e.ok != 1) {
          if (!fired) { v.add("C14", "answered-failing", req + " at a point where it fails (" + e.what + ") was answered"); }
        } else if (!close(a.v, e.v, loose ? 1e-3 : 1e-7)) {
          v.add("C14", "stale", req + " differs from the answer of a fresh problem: " + show(a.v, e.v));
        }
      } else {
        hash_bytes(run_hash, &a.ok, sizeof a.ok);
        ++counts["failed requests"];
        if (fired && !computed) { gave_up.insert(xkey); }
        if (!fired && e.ok == 1 && !(gave_up.count(xkey) && !computed)) { v.add("C14", "failed", req + " fails (" + (a.ok == 2 ? a.what : std::string("false")) + ") where a fresh problem answers it"); }
        ++bad_answers;
      }
      if (a.ok == 1 && e.ok == 1) { model_time += s.T.back() - s.T.front(); }
    }
  }

  // ------------------------------------------------------------------ C15
  struct Fd { // differences of a vector valued function along a line
    Vec d, err;
    std::vector<bool> smooth;
    bool ok = false;
  };
  template <class F> Fd differences(F const &f, double h) {
    Fd r;
    Vec a, b, c, d, z, e1, e2;
    if (!f(0.0, z) || !f(h, a) || !f(-h, b) || !f(.5 * h, c) || !f(-.5 * h, d) || !f(.25 * h, e1) || !f(-.25 * h, e2)) { return r; }
    Vec D1 = (a - b) / (2 * h), D2 = (c - d) / h, D3 = (e1 - e2) / (.5 * h);
    r.d = (4 * D3 - D2) / 3;
    r.err = (D3 - (4 * D2 - D1) / 3).cwiseAbs() + .1 * (D3 - D2).cwiseAbs();
    r.smooth.resize((size_t)z.size());
    for (Eigen::Index i = 0; i != z.size(); ++i) {
      // a kink: the one-sided slopes do not approach each other
      double k1 = std::abs((a[i] - z[i]) / h - (z[i] - b[i]) / h), k2 = std::abs((e1[i] - z[i]) / (.25 * h) - (z[i] - e2[i]) / (.25 * h));
      double noise = 1e-12 * (1 + std::abs(z[i])) / h;
      r.smooth[(size_t)i] = k2 <= .6 * k1 + noise * 100 || k2 <= 1e-4 * std::abs(r.d[i]);
    }
    r.ok = true;
    return r;
  }

  void deriv(json const &sc, Violations &v) {
    Setup s = make_setup(sc["problem"], v);
    bool net = sc["problem"]["kind"] == "net";
    auto pts = make_points(sc["points"], s, net);
    Instance H(s), V(s);
    Eigen::Index mu = s.proto->m, nU = (Eigen::Index)s.U.size(), nK = (Eigen::Index)s.K.size(), kk = s.proto->k;
    if (H.n != mu * nU || H.m != kk * nK) { v.add("C15", "sizes", "announced " + std::to_string(H.n) + " variables and " + std::to_string(H.m) + " constraints"); }
    { // starting values and bounds
      Vec a(H.n), b(H.n), c(H.m), d(H.m), x(H.n);
      double dummy = 0;
      auto q = [&](Vec &z) { return z.size() ? z.data() : &dummy; };
      H.w->get_bounds_info(H.n, q(a), q(b), H.m, q(c), q(d));
      H.w->get_starting_point(H.n, true, q(x), false, nullptr, nullptr, H.m, false, nullptr);
      auto check = [&](Vec const &have, Series const &want, std::vector<double> const &t, char const *name) {
        Eigen::Index inner = want.v.cols();
        for (size_t i = 0; i != t.size(); ++i) {
          Vec w = want.at(t[i]);
          for (Eigen::Index j = 0; j != inner; ++j) {
            double g = have[(Eigen::Index)i * inner + j];
            if (!(std::abs(g - w[j]) <= 1e-9 * (1 + std::abs(w[j])))) {
              v.add("C15", "bounds", std::string(name) + " " + std::to_string(j) + " at time " + num(t[i]) + " is " + num(g) + " instead of " + num(w[j]));
              return;
            }
          }
        }
      };
      check(x, s.start, s.U, "starting value");
      check(a, s.lb, s.U, "lower bound");
      check(b, s.ub, s.U, "upper bound");
      check(c, s.clb, s.K, "constraint lower bound");
      check(d, s.cub, s.K, "constraint upper bound");
    }
    std::set<std::pair<int, int>> places;
    Eigen::VectorXi row(H.nnz), col(H.nnz);
    {
      int dummy = 0;
      H.w->eval_jac_g(H.n, nullptr, false, H.m, H.nnz, H.nnz ? row.data() : &dummy, H.nnz ? col.data() : &dummy, nullptr);
      for (Eigen::Index i = 0; i != H.nnz; ++i) {
        if (row[i] < 0 || row[i] >= H.m || col[i] < 0 || col[i] >= H.n) {
          v.add("C15", "structure", "announced entry (" + std::to_string(row[i]) + "," + std::to_string(col[i]) + ") is outside the matrix");
          return;
        }
        if (!places.insert({row[i], col[i]}).second) {
          v.add("C15", "structure", "entry (" + std::to_string(row[i]) + "," + std::to_string(col[i]) + ") is announced twice");
          return;
        }
      }
    }
    V.sw.begin(json::array());
    Rng rg(sc.value("seed", 1ull));
    long done = 0;
    for (auto &st : sc["steps"]) {
      size_t pi = st.value("point", 0ul) % pts.size();
      Vec x = pts[pi];
      H.sw.begin(st.value("faults", json::array()));
      // one point: a random order of requests, then everything is compared
      std::vector<std::string> order = st["order"].get<std::vector<std::string>>();
      std::map<std::string, Vec> got;
      bool newx = true, failed = false;
      for (auto &req : order) {
        Answer a = ask(H, req, x.data(), newx);
        newx = false;
        if (a.ok != 1) {
          failed = true;
          continue;
        }
        got[req] = a.v;
        hash_vec(run_hash, a.v);
      }
      bool fired = H.sw.fired > 0;
      ev("point " + std::to_string(pi) + (failed ? " failed" : "") + (fired ? " with faults" : ""));
      if (failed || fired) {
        ++counts[fired ? "points with faults" : "failing points"];
        continue;
      }
      auto value = [&](char const *req, Vec const &y, Vec &out) {
        Answer a = ask(V, req, y.data(), true);
        if (a.ok != 1) { return false; }
        out = a.v;
        return true;
      };
      // values against an independent sum over a separate simulation
      {
        auto p = s.proto->again();
        Switchboard sw;
        Mock_OptimizableObject prob(std::move(p), sw);
        auto evolver = Model::Timeevolver::make_pointer_instance(s.evolver);
        Series u{s.U, Eigen::MatrixXd(nU, mu)};
        for (Eigen::Index i = 0; i != nU; ++i) { u.v.row(i) = x.segment(i * mu, mu).transpose(); }
        Aux::InterpolatingVector states(s.T, s.proto->n);
        bool ok = true;
        try {
          evolver->simulate(s.initial, u.vec(), prob, states);
        } catch (std::exception &) { ok = false; }
        if (!ok) {
          v.add("C15", "simulation", "the optimiser got answers at a point whose simulation fails");
          continue;
        }
        model_time += s.T.back() - s.T.front();
        double obj = 0, mag = 0;
        for (size_t i = 1; i != s.T.size(); ++i) {
          double w = .5 * ((i + 1 != s.T.size() ? s.T[i + 1] : s.T[i]) - s.T[i - 1]);
          Vec y = states.vector_at_index((Eigen::Index)i);
          double c = prob.in->cost(s.T[i], y, u.at(s.T[i])), q = prob.in->penalty(s.T[i], y, u.at(s.T[i]));
          obj += w * (c + q);
          mag += w * (std::abs(c) + std::abs(q));
        }
        if (got.count("f") && !(std::abs(got["f"][0] - obj) <= 1e-8 * mag + 1e-300)) {
          v.add("C15", "objective", "the objective is " + num(got["f"][0]) + ", the integral of cost and penalty is " + num(obj));
        }
        if (got.count("g")) {
          for (Eigen::Index i = 0; i != nK; ++i) {
            size_t at = 0;
            while (s.T[at] != s.K[(size_t)i]) { ++at; }
            Vec y = states.vector_at_index((Eigen::Index)at), g(kk);
            prob.in->constraint(g, s.K[(size_t)i], y, u.at(s.K[(size_t)i]));
            for (Eigen::Index j = 0; j != kk; ++j) {
              double have = got["g"][i * kk + j];
              if (!(std::abs(have - g[j]) <= 1e-8 * (1 + std::abs(g[j])))) {
                v.add("C15", "constraint", "constraint " + std::to_string(j) + " at time " + num(s.K[(size_t)i]) + " is " + num(have) + " instead of " + num(g[j]));
                i = nK - 1;
                break;
              }
            }
          }
        }
      }
      // derivatives
      Eigen::MatrixXd J = Eigen::MatrixXd::Zero(H.m, H.n);
      bool hasJ = got.count("jac") > 0, hasG = got.count("grad") > 0;
      if (hasJ) {
        for (Eigen::Index i = 0; i != H.nnz; ++i) { J(row[i], col[i]) = got["jac"][i]; }
      }
      std::vector<Vec> dirs;
      for (int q = 0; q != 2; ++q) {
        Vec d(H.n);
        for (Eigen::Index i = 0; i != H.n; ++i) { d[i] = rg.uni(-1, 1); }
        dirs.push_back(d);
      }
      long want = st.value("columns", 6l);
      std::set<Eigen::Index> cols;
      for (long q = 0; q != want; ++q) { cols.insert((Eigen::Index)rg.below((uint64_t)H.n)); }
      for (auto c : cols) { dirs.push_back(Vec::Unit(H.n, c)); }
      double h = net ? .02 : 2e-3;
      double jscale = hasJ && H.m ? J.cwiseAbs().maxCoeff() : 0, gscale = hasG ? got["grad"].cwiseAbs().maxCoeff() : 0;
      for (auto &d : dirs) {
        auto f = [&](char const *req) {
          return [&, req](double t, Vec &out) { return value(req, x + t * d, out); };
        };
        // A kink of the true function inside of the width may pretend another slope, and friction
        // near standstill bends the function on a tiny scale.  So an entry is only wrong if it
        // misses the slopes of several widths, down to tiny ones, which agree with each other.
        auto judge = [&](char const *req, Vec const &have, double scale, char const *count, auto const &report) {
          Fd r = differences(f(req), h);
          if (!r.ok) {
            ++counts["slopes left out"];
            return;
          }
          std::vector<Fd> more;
          for (Eigen::Index i = 0; i != have.size(); ++i) {
            auto usable = [&](Fd const &q, double &tol) {
              tol = 30 * q.err[i] + (net ? 1e-5 : 1e-6) * (scale + 1e-6);
              return q.ok && q.smooth[(size_t)i] && (tol <= .02 * (scale + std::abs(q.d[i])) || std::abs(q.d[i]) + scale < 1e-6);
            };
            double tol;
            if (!usable(r, tol)) {
              ++counts["slopes left out"];
              continue;
            }
            ++counts[count];
            if (std::abs(have[i] - r.d[i]) <= tol) { continue; }
            if (more.empty()) {
              for (double w : {.3, .1, .03, .01, .003, .001, .0003}) { more.push_back(differences(f(req), w * h)); }
            }
            int miss = 0, hit = 0;
            double low = r.d[i], high = r.d[i];
            for (auto &q : more) {
              double tol2;
              if (q.ok && usable(q, tol2)) {
                ++(std::abs(have[i] - q.d[i]) <= tol2 ? hit : miss);
                low = std::min(low, q.d[i]);
                high = std::max(high, q.d[i]);
              }
            }
            double distance = std::max(low - have[i], have[i] - high);
            if (hit || miss < 3 || !(high - low <= .25 * distance)) {
              ++counts["slopes left out"];
              continue;
            }
            report(i, r.d[i], tol, have[i]);
            break;
          }
        };
        if (hasG) {
          judge("f", Vec::Constant(1, got["grad"].dot(d)), gscale, "objective slopes compared", [&](Eigen::Index, double want, double tol, double have) {
            v.add("C15", "gradient", "slope of the objective " + num(want) + " (+-" + num(tol) + "), from the gradient " + num(have));
          });
        }
        if (hasJ && H.m) {
          judge("g", J * d, jscale, "constraint slopes compared", [&](Eigen::Index i, double want, double tol, double have) {
            v.add("C15", "jacobian", "slope of constraint " + std::to_string(i) + " is " + num(want) + " (+-" + num(tol) + "), from the jacobian " + num(have));
          });
        }
      }
      ++done;
    }
    counts["points judged"] += done;
  }

  // ------------------------------------------------------------------ C17
  void cache(json const &sc, Violations &v) {
    json const &ps = sc["problem"];
    bool net = ps["kind"] == "net";
    Setup s;
    Rng r(ps.value("gridseed", 1ull));
    std::vector<std::vector<double>> grids;
    std::vector<Vec> inits;
    std::vector<Series> controls;
    s.evolver = ps["evolver"];
    if (net) {
      Loaded l = load_network(ps["dir"]);
      if (!s.evolver.contains("tolerance")) { s.evolver["tolerance"] = l.settings["tolerance"]; }
      std::vector<double> T;
      for (Eigen::Index i = 0; i != l.state_times.size(); ++i) { T.push_back(l.state_times[i]); }
      Vec init = l.initial;
      Series base;
      auto pts = l.controls.get_interpolation_points();
      for (Eigen::Index i = 0; i != pts.size(); ++i) { base.t.push_back(pts[i]); }
      base.v.resize(pts.size(), l.controls.get_inner_length());
      for (Eigen::Index i = 0; i != pts.size(); ++i) { base.v.row(i) = l.controls.vector_at_index(i).transpose(); }
      s.proto = std::make_unique<NetInner>(ps["dir"].get<std::string>(), std::move(l.problem));
      grids.push_back(T);
      inits.push_back(init);
      controls.push_back(base);
    } else {
      s.proto = std::make_unique<Synthetic>(ps);
      grids.push_back(ps["T"].get<std::vector<double>>());
      Vec x(s.proto->n);
      for (Eigen::Index i = 0; i != x.size(); ++i) { x[i] = r.uni(-1, 1); }
      inits.push_back(x);
      controls.push_back(random_series(r, ps["U"].get<std::vector<double>>(), s.proto->m, -1, 1, false));
    }
    // variants that differ in a single place
    for (auto &c : sc["controls"]) {
      Series q = controls[c.value("of", 0ul) % controls.size()];
      std::string how = c.value("how", "one");
      double delta = c.value("delta", .5);
      if (q.v.size()) {
        if (how == "one") {
          Eigen::Index i = (Eigen::Index)(c.value("at", 0ul) % (size_t)q.v.size());
          q.v(i / q.v.cols(), i % q.v.cols()) += delta;
        } else if (how == "last") {
          q.v(q.v.rows() - 1, q.v.cols() - 1) += delta;
        } else if (how == "grid" && q.t.size() > 2) { // same values, other times
          size_t i = 1 + c.value("at", 0ul) % (q.t.size() - 2);
          q.t[i] = .5 * (q.t[i] + q.t[i + 1]);
        } else if (how == "ends") {
          q.t.front() -= 1;
          q.t.back() += 1;
        } else if (how == "more") { // one point more on the same line
          Series z = q;
          double mid = .5 * (q.t[0] + q.t[1]);
          z.t.insert(z.t.begin() + 1, mid);
          z.v.resize(q.v.rows() + 1, q.v.cols());
          z.v.row(0) = q.v.row(0);
          z.v.row(1) = q.at(mid).transpose();
          for (Eigen::Index i = 1; i != q.v.rows(); ++i) { z.v.row(i + 1) = q.v.row(i); }
          q = z;
        } else {
          for (Eigen::Index i = 0; i != q.v.size(); ++i) { q.v.data()[i] += delta * (net ? r.unit() : r.uni(-1, 1)); }
        }
      }
      controls.push_back(q);
    }
    for (auto &g : sc["grids"]) {
      auto t = grids[g.value("of", 0ul) % grids.size()];
      std::string how = g.value("how", "move");
      if (how == "short" && t.size() > 2) {
        t.pop_back();
      } else if (how == "drop" && t.size() > 2) {
        t.erase(t.begin() + 1);
      } else if (how == "first") {
        t[0] += .25 * (t[1] - t[0]);
      } else if (how == "add") {
        t.insert(t.begin() + 1, .5 * (t[0] + t[1]));
      } else if (how == "nudge") {
        t.back() = std::nextafter(t.back(), t.front());
      } else if (t.size() > 2) {
        t[1] = .5 * (t[1] + t[2]);
      }
      grids.push_back(t);
    }
    for (auto &g : sc["inits"]) {
      Vec x = inits[g.value("of", 0ul) % inits.size()];
      auto i = (Eigen::Index)(g.value("at", 0ul) % (size_t)x.size());
      if (g.value("how", "one") == "last") { i = x.size() - 1; }
      x[i] += g.value("delta", 1e-3);
      inits.push_back(x);
    }
    for (auto &j : ps.value("rules", json::array())) { s.rules.emplace_back(j); }
    // the first of equal ones stands for all of them
    auto first_equal = [](auto const &all, size_t i, auto const &eq) {
      i %= all.size();
      for (size_t q = 0; q != i; ++q) {
        if (eq(all[q], all[i])) { return q; }
      }
      return i;
    };
    auto same_grid = [](std::vector<double> const &a, std::vector<double> const &b) { return a == b; };
    auto same_vec = [](Vec const &a, Vec const &b) { return bits_equal(a, b); };
    auto same_series = [](Series const &a, Series const &b) { return a.t == b.t && a.v.rows() == b.v.rows() && a.v.cols() == b.v.cols() && a.v == b.v; };

    Switchboard sw;
    sw.rules = s.rules;
    Mock_OptimizableObject prob(s.proto->again(), sw);
    Optimization::ControlStateCache cache(Model::Timeevolver::make_pointer_instance(s.evolver));
    struct Truth {
      bool ok = false;
      std::vector<Vec> rows;
      std::string what;
    };
    std::map<std::array<size_t, 3>, Truth> truth;
    std::map<std::array<size_t, 3>, bool> transient;
    auto expected = [&](std::array<size_t, 3> k) -> Truth & {
      auto it = truth.find(k);
      if (it != truth.end()) { return it->second; }
      Switchboard sw2;
      sw2.rules = s.rules;
      Mock_OptimizableObject p2(s.proto->again(), sw2);
      auto ev2 = Model::Timeevolver::make_pointer_instance(s.evolver);
      Truth t;
      Aux::InterpolatingVector states(grids[k[1]], s.proto->n);
      try {
        AllocScope on(true);
        ev2->simulate(inits[k[2]], controls[k[0]].vec(), p2, states);
        t.ok = true;
      } catch (std::exception &e) {
        AllocScope off(false);
        t.what = e.what();
      }
      for (Eigen::Index i = 0; i != states.size(); ++i) { t.rows.push_back(states.vector_at_index(i)); }
      return truth[k] = t;
    };
    for (auto &st : sc["steps"]) {
      std::array<size_t, 3> k{first_equal(controls, st.value("control", 0ul), same_series), first_equal(grids, st.value("grid", 0ul), same_grid), first_equal(inits, st.value("init", 0ul), same_vec)};
      sw.begin(st.value("faults", json::array()));
      bool supply = st.value("supply", true);
      Aux::InterpolatingVector_Base const *got = nullptr;
      bool threw = false;
      std::string what;
      ++counts["requests"];
      try {
        AllocScope on(true);
        auto c = controls[k[0]].vec();
        Vec T = as_vec(grids[k[1]]), x0 = inits[k[2]];
        if (supply) {
          got = cache.check_and_supply_states(prob, c, T, x0);
        } else if (cache.refresh_cache(prob, c, T, x0)) {
          got = &cache.get_cached_states();
        }
      } catch (std::exception &e) {
        AllocScope off(false);
        threw = true;
        what = e.what();
      }
      bool fired = sw.fired > 0;
      Truth &e = expected(k);
      ev(std::string(supply ? "supply " : "refresh ") + std::to_string(k[0]) + "," + std::to_string(k[1]) + "," + std::to_string(k[2]) + " -> " + (got ? "states" : "none") + (fired ? " (fault)" : ""));
      std::string rq = std::string(supply ? "supply" : "refresh");
      if (threw) { v.add("C17", "threw", rq + " threw " + what); }
      if (got) {
        ++counts["answered"];
        for (Eigen::Index i = 0; i != got->size(); ++i) { hash_vec(run_hash, got->vector_at_index(i)); }
        bool same = (size_t)got->size() == grids[k[1]].size() && got->get_inner_length() == s.proto->n;
        for (Eigen::Index i = 0; same && i != got->size(); ++i) { same = got->interpolation_point_at_index(i) == grids[k[1]][(size_t)i]; }
        if (!same) {
          v.add("C17", "structure", rq + " hands out states on another grid than asked for");
        } else if (!e.ok) {
          if (!fired && !transient[k]) { v.add("C17", "answered-failing", rq + " hands out states where the simulation fails: " + e.what); }
        } else {
          model_time += grids[k[1]].back() - grids[k[1]].front();
          for (Eigen::Index i = 0; i != got->size(); ++i) {
            Vec row = got->vector_at_index(i);
            bool ok = bits_equal(row, e.rows[(size_t)i]);
            if (!ok && (fired || transient[k])) { ok = close(row, e.rows[(size_t)i], 1e-3); } // a retried step ends elsewhere within the tolerance
            if (!ok) {
              v.add("C17", "states", rq + " hands out wrong states: row " + std::to_string(i) + ": " + show(row, e.rows[(size_t)i]));
              break;
            }
          }
        }
        if (fired) { transient[k] = true; }
      } else {
        ++counts["failed requests"];
        hash_bytes(run_hash, "f", 1);
        if (e.ok && !fired && !(supply && transient[k])) { v.add("C17", "refused", rq + " fails where the simulation succeeds"); }
        if (fired) { transient[k] = true; }
      }
    }
  }

  // ------------------------------------------------------------------ C18
  void linear(json const &sc, Violations &v) {
    json const &ps = sc["problem"];
    Loaded l = load_network(ps["dir"]);
    auto &p = *l.problem;
    NetInner in(ps["dir"].get<std::string>(), std::move(l.problem));
    Eigen::Index n = in.n, m = in.m, k = in.k;
    // which states are pressures, flows, voltages, angles
    std::vector<int> kind((size_t)n, -1);
    for (int part = 0; part != 2; ++part) {
      json mark = l.initial_json;
      for (auto &sec : mark.items()) {
        if (!sec.value().is_object()) { continue; }
        for (auto &type : sec.value().items()) {
          if (!type.value().is_array()) { continue; }
          for (auto &e : type.value()) {
            if (!e.contains("data")) { continue; }
            for (auto &d : e["data"]) {
              for (size_t i = 0; i != d["values"].size(); ++i) { d["values"][i] = (int)i == part ? (sec.key() == "nodes" ? 2.0 : 1.0) : 0.0; }
            }
          }
        }
      }
      Vec x = Vec::Zero(n);
      ((NetInner &)in).p->set_initial_values(x, mark);
      for (Eigen::Index i = 0; i != n; ++i) {
        if (x[i] > 1.5) { kind[(size_t)i] = 2 + part; } else if (x[i] != 0) { kind[(size_t)i] = part; }
      }
    }
    (void)p;
    Vec base = l.initial;
    std::vector<Vec> met{base};
    std::vector<double> T;
    for (Eigen::Index i = 0; i != l.state_times.size(); ++i) { T.push_back(l.state_times[i]); }
    auto control = [&](Rng &r, double sc) {
      Vec u(m);
      for (Eigen::Index i = 0; i != m; ++i) {
        u[i] = std::abs(sc) * r.unit() * 5;
        if (sc < 0 && r.chance(.5)) { u[i] = -u[i]; }
      }
      return u;
    };
    if (sc.value("simulate", true)) {
      json cfg = ps["evolver"];
      if (!cfg.contains("tolerance")) { cfg["tolerance"] = l.settings["tolerance"]; }
      auto evo = Model::Timeevolver::make_pointer_instance(cfg);
      Switchboard sw;
      Mock_OptimizableObject prob(in.again(), sw);
      Aux::InterpolatingVector states(T, n);
      try {
        evo->simulate(base, l.controls, prob, states);
        met.clear();
        for (Eigen::Index i = 0; i != states.size(); ++i) { met.push_back(states.vector_at_index(i)); }
        model_time += T.back() - T.front();
        ++counts["simulations"];
      } catch (std::exception &) { ++counts["failed simulations"]; }
    }
    auto make_state = [&](json const &q) {
      Rng r(q.value("seed", 1ull));
      Vec x = met[q.value("met", 0ul) % met.size()];
      double fs = q.value("flow", 1.0), fa = q.value("flowadd", 0.0), pv = q.value("press", 0.0), vv = q.value("volt", 0.0), av = q.value("angle", 0.0);
      bool each = q.value("each", false);
      double g = r.chance(.5) ? 1 : -1;
      for (Eigen::Index i = 0; i != n; ++i) {
        double u1 = r.uni(-1, 1), u2 = r.unit();
        switch (kind[(size_t)i]) {
        case 0: x[i] *= 1 + pv * u1; break;
        case 1: x[i] = fs * x[i] + (fa == 0 ? 0 : (each ? (u1 < 0 ? -1 : 1) * fa * std::pow(10, -3 * u2) : g * fa * (1 + .01 * u1))); break;
        case 2: x[i] *= 1 + vv * u1; break;
        case 3: x[i] += av * u1; break;
        default: x[i] += .01 * fa * u1;
        }
      }
      return x;
    };
    struct At {
      double t0, t1;
      Vec l, x, u;
    };
    typedef std::function<void(Aux::Matrixhandler &, At const &)> Lin;
    struct Kind {
      std::string name;
      Eigen::Index rows, cols;
      Lin lin;
      std::function<void(Vec &, At const &)> val;
      Vec At::*var;
    };
    auto scalar = [](double x) { return Vec::Constant(1, x); };
    std::vector<Kind> kinds{
        {"equations by new state", n, n, [&](auto &h, At const &a) { in.d_new(h, a.t0, a.t1, a.l, a.x, a.u); }, [&](Vec &o, At const &a) { in.evaluate(o, a.t0, a.t1, a.l, a.x, a.u); }, &At::x},
        {"equations by last state", n, n, [&](auto &h, At const &a) { in.d_last(h, a.t0, a.t1, a.l, a.x, a.u); }, [&](Vec &o, At const &a) { in.evaluate(o, a.t0, a.t1, a.l, a.x, a.u); }, &At::l},
        {"equations by control", n, m, [&](auto &h, At const &a) { in.d_control(h, a.t0, a.t1, a.l, a.x, a.u); }, [&](Vec &o, At const &a) { in.evaluate(o, a.t0, a.t1, a.l, a.x, a.u); }, &At::u},
        {"cost by state", 1, n, [&](auto &h, At const &a) { in.cost_x(h, a.t1, a.x, a.u); }, [&](Vec &o, At const &a) { o = scalar(in.cost(a.t1, a.x, a.u)); }, &At::x},
        {"cost by control", 1, m, [&](auto &h, At const &a) { in.cost_u(h, a.t1, a.x, a.u); }, [&](Vec &o, At const &a) { o = scalar(in.cost(a.t1, a.x, a.u)); }, &At::u},
        {"penalty by state", 1, n, [&](auto &h, At const &a) { in.penalty_x(h, a.t1, a.x, a.u); }, [&](Vec &o, At const &a) { o = scalar(in.penalty(a.t1, a.x, a.u)); }, &At::x},
        {"penalty by control", 1, m, [&](auto &h, At const &a) { in.penalty_u(h, a.t1, a.x, a.u); }, [&](Vec &o, At const &a) { o = scalar(in.penalty(a.t1, a.x, a.u)); }, &At::u},
        {"constraints by state", k, n, [&](auto &h, At const &a) { in.constraint_x(h, a.t1, a.x, a.u); }, [&](Vec &o, At const &a) { in.constraint(o, a.t1, a.x, a.u); }, &At::x},
        {"constraints by control", k, m, [&](auto &h, At const &a) { in.constraint_u(h, a.t1, a.x, a.u); }, [&](Vec &o, At const &a) { in.constraint(o, a.t1, a.x, a.u); }, &At::u},
    };
    std::map<std::string, SpMat> mats; // kept through the whole history, one per kind and orientation
    size_t step = 0;
    for (auto &st : sc["steps"]) {
      ++step;
      Rng r(st.value("seed", 1ull));
      At a;
      size_t ti = 1 + (size_t)r.below(T.size() - 1);
      a.t0 = T[ti - 1], a.t1 = T[ti];
      if (r.chance(.3)) { a.t0 = T[0], a.t1 = T[0] + (T.back() - T[0]) * r.uni(.05, 1); }
      a.l = make_state(st["last"]);
      a.x = make_state(st["new"]);
      a.u = control(r, st.value("control", 1.0));
      in.prepare(a.t0, a.t1, a.l, a.u);
      ev("state " + std::to_string(step));
      ++counts["states"];
      std::map<std::string, Vec> rowmag; // size of the terms that are added up, that is the scale of rounding
      for (auto &kd : kinds) {
        if (kd.rows == 0 || kd.cols == 0) { continue; }
        Eigen::MatrixXd D = Eigen::MatrixXd::Zero(kd.rows, kd.cols);
        DenseHandler dh(D);
        kd.lin(dh, a);
        bool fin = true;
        for (Eigen::Index i = 0; i != D.size(); ++i) { fin = fin && std::isfinite(D.data()[i]); }
        Vec val = Vec::Zero(kd.rows);
        kd.val(val, a);
        if (!fin && finite(val)) { v.add("C18", "not-finite", kd.name + ": a derivative is not finite at step " + std::to_string(step)); }
        if (!fin || !finite(val)) { continue; }
        for (Eigen::Index i = 0; i != D.size(); ++i) { hash_bytes(run_hash, D.data() + i, 8); }
        // the two ways of filling a matrix
        for (int tr = 0; tr != 2; ++tr) {
          Eigen::MatrixXd want = tr ? Eigen::MatrixXd(D.transpose()) : D;
          double sc1 = std::max(1e-300, D.cwiseAbs().maxCoeff());
          auto compare = [&](SpMat const &M, char const *how) {
            Eigen::MatrixXd have(M);
            if (have.rows() != want.rows() || have.cols() != want.cols() || !((have - want).cwiseAbs().maxCoeff() <= 1e-12 * sc1)) {
              Eigen::Index i = 0, j = 0;
              if (have.rows() == want.rows() && have.cols() == want.cols()) { (have - want).cwiseAbs().maxCoeff(&i, &j); }
              v.add("C18", "refresh", kd.name + " at step " + std::to_string(step) + ": the " + how + " matrix holds " + num(have(i, j)) + " at (" + std::to_string(i) + "," + std::to_string(j) + "), the components supply " + num(want(i, j)));
            }
          };
          auto fill = [&](Aux::Matrixhandler &h) {
            kd.lin(h, a);
            h.set_matrix();
          };
          SpMat fresh(want.rows(), want.cols());
          if (tr) {
            Aux::Triplethandler<Aux::Transposed> h(fresh);
            fill(h);
          } else {
            Aux::Triplethandler<> h(fresh);
            fill(h);
          }
          compare(fresh, "new");
          std::string key = kd.name + (tr ? "T" : "");
          if (!mats.count(key)) {
            mats[key] = fresh;
            continue;
          }
          SpMat &M = mats[key];
          auto before = M.nonZeros();
          long cut = st.value("interrupt", 0l);
          if (cut) { // a refresh that is given up in the middle
            try {
              if (tr) {
                Aux::Coeffrefhandler<Aux::Transposed> h(M);
                Interrupter i(h, cut);
                kd.lin(i, a);
              } else {
                Aux::Coeffrefhandler<> h(M);
                Interrupter i(h, cut);
                kd.lin(i, a);
              }
            } catch (InjectedFault &) { ++faultcount["interrupted refresh"]; }
          }
          if (tr) {
            Aux::Coeffrefhandler<Aux::Transposed> h(M);
            fill(h);
          } else {
            Aux::Coeffrefhandler<> h(M);
            fill(h);
          }
          ++counts["matrices refreshed"];
          compare(M, "refreshed");
          if (M.nonZeros() != before || !M.isCompressed()) {
            v.add("C18", "structure", kd.name + " at step " + std::to_string(step) + ": the structure fixed earlier lacks entries needed now (" + std::to_string(before) + " -> " + std::to_string(M.nonZeros()) + ")");
            mats[key] = fresh;
          }
        }
        // true derivatives
        Vec &known = rowmag[kd.name.substr(0, kd.name.find(" by "))], mag = D.cwiseAbs() * (a.*kd.var).cwiseAbs();
        if (known.size() == mag.size()) { mag = mag.cwiseMax(known); }
        known = mag;
        std::set<Eigen::Index> cols;
        long limit = st.value("columns", 25l);
        if (kd.cols <= limit) {
          for (Eigen::Index c = 0; c != kd.cols; ++c) { cols.insert(c); }
        } else {
          for (long q = 0; q != limit; ++q) { cols.insert((Eigen::Index)r.below((uint64_t)kd.cols)); }
        }
        for (auto c : cols) {
          double x0 = (a.*kd.var)[c];
          double h0 = 1e-4 * std::max(std::abs(x0), kd.var == &At::u ? 1.0 : (kind[(size_t)c] == 1 ? 1e-3 : 1e-2));
          auto f = [&](double t, Vec &out) {
            At b = a;
            (b.*kd.var)[c] = x0 + t;
            out = Vec::Zero(kd.rows);
            kd.val(out, b);
            return finite(out);
          };
          double const widths[] = {1, 20, 400, .05};
          std::vector<Fd> fds;
          std::vector<double> hs;
          for (double w : widths) {
            Fd d = differences(f, w * h0);
            if (d.ok) {
              fds.push_back(d);
              hs.push_back(w * h0);
            }
          }
          for (Eigen::Index i = 0; i != kd.rows; ++i) {
            double rs = std::max(D.row(i).cwiseAbs().maxCoeff() * 1e-3, std::abs(D(i, c)));
            std::vector<std::pair<double, double>> usable; // tolerance and slope
            for (size_t q = 0; q != fds.size(); ++q) {
              Fd &d = fds[q];
              double tol = 30 * d.err[i] + 1e-6 * rs + (1e-13 * (1 + std::abs(val[i])) + 4e-15 * mag[i]) / hs[q];
              if (d.smooth[(size_t)i] && (tol <= .02 * std::max(std::abs(D(i, c)), std::abs(d.d[i])) || (D(i, c) == 0 && d.d[i] == 0))) { usable.push_back({tol, d.d[i]}); }
            }
            if (usable.empty()) {
              ++counts["entries left out"];
              continue;
            }
            ++counts["entries compared"];
            // an entry is wrong if it misses the two most precise slopes
            std::sort(usable.begin(), usable.end());
            if (usable.size() > 2) { usable.resize(2); }
            bool wrong = true;
            for (auto &u : usable) { wrong = wrong && !(std::abs(D(i, c) - u.second) <= u.first); }
            if (wrong) {
              v.add("C18", "derivative", kd.name + " at step " + std::to_string(step) + ", entry (" + std::to_string(i) + "," + std::to_string(c) + "): supplied " + num(D(i, c)) + ", true " + num(usable[0].second) + " (+-" + num(usable[0].first) + ")");
              break;
            }
          }
        }
      }
    }
  }
} // namespace

int main(int argc, char **argv) {
  return gsim::serve(argc, argv, [](json const &sc, json &result) {
    begin_light(sc);
    AllocScope off(false);
    Violations v;
    tracing = sc.value("trace", false);
    try {
      std::string mode = sc["mode"];
      if (mode == "history") {
        history(sc, v);
      } else if (mode == "deriv") {
        deriv(sc, v);
      } else if (mode == "cache") {
        cache(sc, v);
      } else {
        linear(sc, v);
      }
    } catch (std::exception &e) {
      set_alloc_active(false);
      result["setup_error"] = e.what();
    }
    result["violations"] = v.list;
    result["faultcount"] = faultcount;
    result["counts"] = counts;
    result["hash"] = std::to_string(run_hash);
    result["events"] = events;
    result["covered_us"] = (long)(std::min(model_time, 1e12) * 1e6);
    if (tracing) { result["trace"] = trace; }
  });
}
