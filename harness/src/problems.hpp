// Problems for the API level harnesses: networks read from files the way the
// front end reads them, and small synthetic systems.
#pragma once
#include "Aux_json.hpp"
#include "Controlcomponent.hpp"
#include "Full_factory.hpp"
#include "InterpolatingVector.hpp"
#include "Matrixhandler.hpp"
#include "Netfactory.hpp"
#include "Networkproblem.hpp"
#include "Timedata.hpp"
#include "Timeevolver.hpp"
#include "helpers.hpp"
#include "sim.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <cmath>
#include <filesystem>
#include <limits>
#include <memory>

namespace gsim {
  using Vec = Eigen::VectorXd;
  using Ref = Eigen::Ref<Eigen::VectorXd>;
  using CRef = Eigen::Ref<Eigen::VectorXd const> const &;
  using SpMat = Eigen::SparseMatrix<double>;

  struct AllocScope { // real code under allocation faults / harness code outside
    bool old;
    static bool &current() {
      static bool c = false;
      return c;
    }
    explicit AllocScope(bool on) : old(current()) {
      current() = on;
      set_alloc_active(on);
    }
    ~AllocScope() {
      current() = old;
      set_alloc_active(old);
    }
  };

  inline bool bits_equal(CRef a, CRef b) {
    if (a.size() != b.size()) { return false; }
    for (Eigen::Index i = 0; i != a.size(); ++i) {
      if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) { return false; }
    }
    return true;
  }
  inline bool finite(CRef a) {
    for (Eigen::Index i = 0; i != a.size(); ++i) {
      if (!std::isfinite(a[i])) { return false; }
    }
    return true;
  }

  // linear interpolation, constant beyond the ends is *not* assumed: callers
  // only ask inside the range.
  inline Vec interpolate(std::vector<double> const &t, Eigen::MatrixXd const &v, double x) {
    size_t n = t.size();
    if (n == 1 || x <= t.front()) { return v.row(0).transpose(); }
    if (x >= t.back()) { return v.row((Eigen::Index)n - 1).transpose(); }
    size_t k = 1;
    while (k + 1 < n && t[k] < x) { ++k; }
    double w = (x - t[k - 1]) / (t[k] - t[k - 1]);
    return ((1 - w) * v.row((Eigen::Index)k - 1) + w * v.row((Eigen::Index)k)).transpose();
  }

  struct Loaded {
    nlohmann::json all, initial_json, settings;
    std::unique_ptr<Model::Networkproblem> problem;
    Vec initial;
    std::unique_ptr<Model::Timedata> timedata;
    Vec state_times;
    Aux::InterpolatingVector controls;
  };

  inline std::unique_ptr<Model::Networkproblem> load_problem(nlohmann::json const &all, std::filesystem::path const &pd) {
    auto pj = all["problem_data"];
    pj["GRAZER_file_directory"] = pd.string();
    Model::Componentfactory::Full_factory factory(pj.value("defaults", nlohmann::json::object()));
    auto p = std::make_unique<Model::Networkproblem>(Model::build_net(pj, factory));
    p->init();
    return p;
  }

  inline Loaded load_network(std::string const &dir) {
    Loaded l;
    std::filesystem::path pd = std::filesystem::path(dir) / "problem";
    l.all = aux_json::get_json_from_file_path(pd / "problem_data.json");
    l.settings = l.all["simulation_settings"];
    l.initial_json = aux_json::get_json_from_file_path(pd / "initial.json");
    l.problem = load_problem(l.all, pd);
    l.initial = Vec(l.problem->get_number_of_states());
    l.problem->set_initial_values(l.initial, l.initial_json);
    l.timedata = std::make_unique<Model::Timedata>(l.settings);
    Aux::InterpolatingVector s(
        Aux::make_from_start_number_end(
            l.timedata->get_starttime(), l.timedata->get_endtime(), l.timedata->get_number_of_time_points()),
        1);
    l.state_times = s.get_interpolation_points();
    setup_controls(l.controls, *l.problem, *l.timedata, l.all, pd);
    return l;
  }

  inline Vec to_vec(json const &j) {
    Vec v((Eigen::Index)j.size());
    for (size_t i = 0; i != j.size(); ++i) { v[(Eigen::Index)i] = j[i].is_number() ? j[i].get<double>() : std::nan(""); }
    return v;
  }
  inline json from_vec(CRef v) {
    json j = json::array();
    for (Eigen::Index i = 0; i != v.size(); ++i) { j.push_back(v[i]); }
    return j;
  }
  inline void hash_vec(uint64_t &h, CRef v) {
    for (Eigen::Index i = 0; i != v.size(); ++i) {
      double x = v[i];
      hash_bytes(h, &x, sizeof x);
    }
  }
} // namespace gsim
