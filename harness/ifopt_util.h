// Random variable sets, bounds and constraint sets for the trajopt_ifopt harnesses, each with its own reference.
#pragma once
#include "mon.h"
#include <Eigen/Dense>
#include <console_bridge/console.h>
#include <trajopt_ifopt/core/bounds.h>
#include <trajopt_ifopt/core/composite.h>
#include <trajopt_ifopt/core/constraint_set.h>
#include <trajopt_ifopt/core/cost_term.h>
#include <trajopt_ifopt/core/problem.h>
#include <trajopt_ifopt/variable_sets/node.h>
#include <trajopt_ifopt/variable_sets/nodes_variables.h>
#include <trajopt_ifopt/variable_sets/var.h>
namespace ifo
{
using namespace trajopt_ifopt;
using Eigen::MatrixXd;
using Eigen::VectorXd;
struct Quiet
{
  Quiet() { console_bridge::noOutputHandler(); }
};
static Quiet quiet;

/// a bound of any kind
inline Bounds randBounds(mon::Rng& r, int kind = -1)
{
  if (kind < 0)
    kind = r.range(0, 4);
  const double a = r.unif(-3, 3), w = r.unif(0.05, 3);
  const double inf = r.chance(0.5) ? INFINITY : (r.chance(0.5) ? 1e20 : 1e30);
  switch (kind)
  {
    case 0: return { a, a };
    case 1: return { a, inf };
    case 2: return { -inf, a };
    case 3: return { a, a + w };
    default: return { -inf, inf };
  }
}
inline BoundsType refType(double lo, double hi)
{
  auto fin = [](double v) { return std::isfinite(v) && v < 1e20 && v > -1e20; };
  if (!fin(lo) && !fin(hi))
    return BoundsType::kUnbounded;
  if (fin(lo) && fin(hi))
    return std::abs(hi - lo) < 1e-8 ? BoundsType::kEquality : BoundsType::kRangeBound;
  return fin(lo) ? BoundsType::kLowerBound : BoundsType::kUpperBound;
}
inline double clampRef(double x, const Bounds& b)
{
  if (x < b.getLower())
    return b.getLower();
  if (x > b.getUpper())
    return b.getUpper();
  return x;
}
/// signed distance to the interval
inline double errRef(double x, const Bounds& b) { return x - clampRef(x, b); }

struct RefVar
{
  std::shared_ptr<const Var> var;
  Eigen::Index index;
  std::string id;
  std::vector<std::string> names;
  std::size_t node;
};
struct VarSet
{
  std::shared_ptr<NodesVariables> nv;
  VectorXd x;                                      ///< reference values
  std::vector<Bounds> bounds;                      ///< reference bounds
  std::vector<RefVar> all;                         ///< every variable, in order
  std::vector<std::shared_ptr<const Var>> joints;  ///< one variable of `dof` joints per node
  std::vector<Eigen::Index> joint_index;
  std::vector<std::string> node_names;
  int dof{ 0 };
};
/// `nodes` nodes, each with a joint vector of `dof` and possibly other variables around it
inline VarSet randVars(mon::Case& c, int nodes, int dof, bool bounded, bool extras = true)
{
  mon::Rng& r = c.rng;
  VarSet s;
  s.dof = dof;
  std::vector<std::unique_ptr<Node>> list;
  std::vector<double> x;
  for (int i = 0; i < nodes; ++i)
  {
    const std::string nn = "n" + std::to_string(i);
    auto node = std::make_unique<Node>(nn);
    s.node_names.push_back(nn);
    auto scalar = [&](const std::string& id) {
      const Bounds b = bounded ? randBounds(r) : NoBound;
      const double v = r.unif(-4, 4);
      RefVar rv;
      rv.index = static_cast<Eigen::Index>(x.size());
      rv.id = id;
      rv.names = { id };
      rv.node = static_cast<std::size_t>(i);
      rv.var = (!bounded && r.chance(0.5)) ? node->addVar(id, v) : node->addVar(id, v, b);
      s.all.push_back(rv);
      s.bounds.push_back(b);
      x.push_back(clampRef(v, b));
    };
    auto vec = [&](const std::string& id, int n) {
      RefVar rv;
      rv.index = static_cast<Eigen::Index>(x.size());
      rv.id = id;
      rv.node = static_cast<std::size_t>(i);
      VectorXd v(n);
      std::vector<Bounds> b;
      for (int k = 0; k < n; ++k)
      {
        v(k) = r.unif(-4, 4);
        b.push_back(bounded ? randBounds(r) : NoBound);
        rv.names.push_back(id + "_" + std::to_string(k));
        s.bounds.push_back(b.back());
        x.push_back(clampRef(v(k), b.back()));
      }
      rv.var = node->addVar(id, rv.names, v, b);
      s.all.push_back(rv);
    };
    for (int k = extras ? r.range(-1, 1) : 0; k > 0; --k)
      r.chance(0.5) ? scalar("pre" + std::to_string(k)) : vec("prev" + std::to_string(k), r.range(1, 3));
    s.joint_index.push_back(static_cast<Eigen::Index>(x.size()));
    if (dof > 0)
    {
      if (dof == 1 && r.chance(0.3))
        scalar("joints");
      else
        vec("joints", dof);
      s.joints.push_back(s.all.back().var);
    }
    for (int k = extras ? r.range(-1, 1) : 0; k > 0; --k)
      r.chance(0.5) ? scalar("post" + std::to_string(k)) : vec("postv" + std::to_string(k), r.range(1, 3));
    list.push_back(std::move(node));
  }
  s.x = Eigen::Map<VectorXd>(x.data(), static_cast<Eigen::Index>(x.size()));
  s.nv = std::make_shared<NodesVariables>("variables", std::move(list));
  return s;
}
inline VectorXd randVec(mon::Rng& r, Eigen::Index n, double s = 3)
{
  VectorXd v(n);
  for (Eigen::Index i = 0; i < n; ++i)
    v(i) = r.num(s / 3);
  return v;
}
inline MatrixXd dense(const Jacobian& j) { return MatrixXd(j); }

/// y_i = a_i.x + b_i + s_i sin(w_i.x), any bounds, any coefficients; counts its updates
struct RandSet : ConstraintSet
{
  MatrixXd A, W;
  VectorXd b, s, coeffs;
  std::vector<Bounds> bnds;
  int updates{ 0 };
  VectorXd updated_at;  ///< the variables at the last update
  bool use_linked{ true };
  RandSet(mon::Rng& r, const std::string& name, int m, int n, bool linear, int bound_kind = -1) : ConstraintSet(name, m)
  {
    A = MatrixXd::Zero(m, n);
    W = MatrixXd::Zero(m, n);
    b = VectorXd(m);
    s = VectorXd::Zero(m);
    coeffs = VectorXd(m);
    for (int i = 0; i < m; ++i)
    {
      b(i) = r.unif(-2, 2);
      coeffs(i) = r.chance(0.15) ? 1.0 : r.unif(0.1, 4);
      if (!linear)
        s(i) = r.unif(-1, 1);
      for (int j = 0; j < n; ++j)
      {
        A(i, j) = r.chance(0.4) ? 0.0 : r.unif(-2, 2);
        if (!linear)
          W(i, j) = A(i, j) == 0 ? 0.0 : r.unif(-1, 1);
      }
      bnds.push_back(randBounds(r, bound_kind));
    }
    non_zeros_ = static_cast<Eigen::Index>(m) * n;
  }
  VectorXd ref(const VectorXd& x) const
  {
    VectorXd y = A * x + b;
    for (Eigen::Index i = 0; i < y.size(); ++i)
      y(i) += s(i) * std::sin(W.row(i).dot(x));
    return y;
  }
  MatrixXd refJac(const VectorXd& x) const
  {
    MatrixXd J = A;
    for (Eigen::Index i = 0; i < J.rows(); ++i)
      J.row(i) += s(i) * std::cos(W.row(i).dot(x)) * W.row(i);
    return J;
  }
  int update() override
  {
    ++updates;
    updated_at = variables_->getValues();
    return rows_;
  }
  VectorXd getValues() const override { return ref(variables_->getValues()); }
  VectorXd getCoefficients() const override { return coeffs; }
  std::vector<Bounds> getBounds() const override { return bnds; }
  Jacobian getJacobian() const override
  {
    const MatrixXd J = refJac(variables_->getValues());
    return J.sparseView();
  }
};
}  // namespace ifo
