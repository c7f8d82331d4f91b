// A small optimal control problem, and the optimiser interface set up for it.
#pragma once
#include "ControlStateCache.hpp"
#include "ImplicitOptimizer.hpp"
#include "InterpolatingVector.hpp"
#include "Matrixhandler.hpp"
#include "OptimizableObject.hpp"
#include "Timeevolver.hpp"
#include "Wrapper.hpp"
#include <cmath>
#include <cstdio>
#include <functional>
#include <limits>
#include <nlohmann/json.hpp>
#include <stdexcept>
#include <vector>
typedef Eigen::Ref<Eigen::VectorXd const> const &C;
typedef Eigen::Ref<Eigen::VectorXd> R;
struct Hooks {
  std::function<void(double, double, C, C)> prepare;          // may throw
  std::function<void(R, double, double, C, C, C)> evaluated;  // may change the result
  std::function<void(C)> dlast;                               // may throw
};
class Mock_OptimizableObject final : public Model::OptimizableObject {
public:
  Hooks &k;
  explicit Mock_OptimizableObject(Hooks &hooks) : k(hooks) {
    state_startindex = 0, state_afterindex = 2;
    control_startindex = 0, control_afterindex = 1;
    constraint_startindex = 0, constraint_afterindex = 1;
  }
  void prepare_timestep(double a, double b, C l, C u) override {
    if (k.prepare) { k.prepare(a, b, l, u); }
  }
  void evaluate(R o, double a, double b, C l, C x, C u) const override {
    double h = b - a;
    o[0] = (x[0] - l[0]) / h + x[0] - 0.3 * u[0] * x[1] - 0.1 * (1 + 0.1 * b);
    o[1] = x[1] + 0.2 * x[1] * x[1] * x[1] - 0.5 * l[1] - 0.2 * std::sin(x[0]) - 0.1 * u[0] * u[0];
    if (k.evaluated) { k.evaluated(o, a, b, l, x, u); }
  }
  void d_evaluate_d_new_state(Aux::Matrixhandler &m, double a, double b, C, C x, C u) const override {
    m.add_to_coefficient(0, 0, 1 / (b - a) + 1);
    m.add_to_coefficient(0, 1, -0.3 * u[0]);
    m.add_to_coefficient(1, 0, -0.2 * std::cos(x[0]));
    m.add_to_coefficient(1, 1, 1 + 0.6 * x[1] * x[1]);
  }
  void d_evaluate_d_last_state(Aux::Matrixhandler &m, double a, double b, C, C, C u) const override {
    if (k.dlast) { k.dlast(u); }
    m.add_to_coefficient(0, 0, -1 / (b - a));
    m.add_to_coefficient(1, 1, -0.5);
  }
  void d_evaluate_d_control(Aux::Matrixhandler &m, double, double, C, C x, C u) const override {
    m.add_to_coefficient(0, 0, -0.3 * x[1]);
    m.add_to_coefficient(1, 0, -0.2 * u[0]);
  }
  double evaluate_cost(double, C x, C u) const override { return x[0] * x[0] + 0.1 * u[0] * u[0]; }
  void d_evaluate_cost_d_state(Aux::Matrixhandler &m, double, C x, C) const override { m.add_to_coefficient(0, 0, 2 * x[0]); }
  void d_evaluate_cost_d_control(Aux::Matrixhandler &m, double, C, C u) const override { m.add_to_coefficient(0, 0, 0.2 * u[0]); }
  double evaluate_penalty(double, C x, C u) const override { return 0.4 * x[1] * u[0]; }
  void d_evaluate_penalty_d_state(Aux::Matrixhandler &m, double, C, C u) const override { m.add_to_coefficient(0, 1, 0.4 * u[0]); }
  void d_evaluate_penalty_d_control(Aux::Matrixhandler &m, double, C x, C) const override { m.add_to_coefficient(0, 0, 0.4 * x[1]); }
  void evaluate_constraint(R o, double, C x, C u) const override { o[0] = x[0] + x[1] * x[1] + 0.5 * u[0] * u[0]; }
  void d_evaluate_constraint_d_state(Aux::Matrixhandler &m, double, C x, C) const override {
    m.add_to_coefficient(0, 0, 1);
    m.add_to_coefficient(0, 1, 2 * x[1]);
  }
  void d_evaluate_constraint_d_control(Aux::Matrixhandler &m, double, C, C u) const override { m.add_to_coefficient(0, 0, u[0]); }
  Eigen::Index set_state_indices(Eigen::Index i) override { return i; }
  void add_results_to_json(nlohmann::json &) override {}
  void json_save(double, C) override {}
  void set_initial_values(R, nlohmann::json const &) const override {}
  Eigen::Index set_control_indices(Eigen::Index i) override { return i; }
  void set_initial_controls(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void set_lower_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void set_upper_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void save_controls_to_json(Aux::InterpolatingVector_Base const &, nlohmann::json &) const override {}
  Eigen::Index set_constraint_indices(Eigen::Index i) override { return i; }
  void set_constraint_lower_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void set_constraint_upper_bounds(Aux::InterpolatingVector_Base &, nlohmann::json const &) const override {}
  void setup() override {}

private:
  std::string componentclass() const override { return "x"; }
  std::string componenttype() const override { return "x"; }
  std::string id() const override { return "x"; }
};
inline std::unique_ptr<Model::Timeevolver> make_evolver(int retries = 0, bool simplified = false) {
  nlohmann::json j = {{"use_simplified_newton", simplified}, {"maximal_number_of_newton_iterations", 50}, {"tolerance", 1e-12}, {"retries", retries}};
  return Model::Timeevolver::make_pointer_instance(j);
}
inline Eigen::VectorXd vec(std::vector<double> const &v) { return Eigen::Map<Eigen::VectorXd const>(v.data(), (Eigen::Index)v.size()); }
inline Aux::InterpolatingVector constant(std::vector<double> const &t, double x) {
  Aux::InterpolatingVector r(vec(t), 1);
  for (Eigen::Index i = 0; i != r.size(); ++i) { r.mut_timestep(i)[0] = x; }
  return r;
}
struct Optimisation {
  Hooks hooks;
  Ipopt::SmartPtr<Optimization::IpoptWrapper> w;
  int n, m, nz;
  Optimisation(std::vector<double> T, std::vector<double> U, std::vector<double> K) {
    auto x0 = vec({0.3, 0.2});
    auto o = std::make_unique<Optimization::ImplicitOptimizer>(
        std::make_unique<Mock_OptimizableObject>(hooks), std::make_unique<Optimization::ControlStateCache>(make_evolver()), vec(T), vec(U), vec(K), x0,
        constant(U, 0.5), constant(U, -9), constant(U, 9), constant(K, -9), constant(K, 9));
    w = new Optimization::IpoptWrapper(std::move(o));
    Ipopt::TNLP::IndexStyleEnum s;
    int h;
    w->get_nlp_info(n, m, nz, h, s);
  }
  bool f(Eigen::VectorXd const &x, bool nx, double &v) { return w->eval_f(n, x.data(), nx, v); }
  bool grad(Eigen::VectorXd const &x, bool nx, Eigen::VectorXd &v) {
    v.resize(n);
    return w->eval_grad_f(n, x.data(), nx, v.data());
  }
  bool g(Eigen::VectorXd const &x, bool nx, Eigen::VectorXd &v) {
    v.resize(m);
    return w->eval_g(n, x.data(), nx, m, v.data());
  }
  bool jac(Eigen::VectorXd const &x, bool nx, Eigen::MatrixXd &v) {
    Eigen::VectorXi r(nz), c(nz);
    w->eval_jac_g(n, nullptr, false, m, nz, r.data(), c.data(), nullptr);
    Eigen::VectorXd a(nz);
    if (!w->eval_jac_g(n, x.data(), nx, m, nz, nullptr, nullptr, a.data())) { return false; }
    v = Eigen::MatrixXd::Zero(m, n);
    for (int i = 0; i != nz; ++i) { v(r[i], c[i]) += a[i]; }
    return true;
  }
};
