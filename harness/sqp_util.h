// Random problems for the trajopt_sqp harnesses, with their reference values.
#pragma once
#include "ifopt_util.h"
#include <iostream>
#include <limits>
#include <sstream>
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_sqp/trajopt_qp_problem.h>
#include <trajopt_sqp/types.h>
namespace sqp
{
using namespace ifo;
using namespace trajopt_sqp;

enum class Kind
{
  squared,
  hinge,
  absolute,
  constraint
};

/// a vector of smooth functions of which, when dynamic, only some rows are there, depending on the point
struct FnSet : ConstraintSet
{
  MatrixXd A, W, P;
  VectorXd b, s, coeffs, ph;
  std::vector<Bounds> bnds;
  Kind kind{ Kind::constraint };
  std::vector<Eigen::Index> rows_now;
  int updates{ 0 };
  static FnSet* make(mon::Rng& r, const std::string& name, int m, int n, Kind kind, bool linear, bool dynamic, int bound_kind)
  {
    return dynamic ? new FnSet(r, name, m, n, kind, linear, bound_kind, true) : new FnSet(r, name, m, n, kind, linear, bound_kind);
  }
  FnSet(mon::Rng& r, const std::string& name, int m, int n, Kind k, bool linear, int bound_kind, bool) : ConstraintSet(name, true) { fill(r, m, n, k, linear, bound_kind); }
  FnSet(mon::Rng& r, const std::string& name, int m, int n, Kind k, bool linear, int bound_kind) : ConstraintSet(name, m)
  {
    fill(r, m, n, k, linear, bound_kind);
    for (int i = 0; i < m; ++i)
      rows_now.push_back(i);
  }
  void fill(mon::Rng& r, int m, int n, Kind k, bool linear, int bound_kind)
  {
    kind = k;
    A = MatrixXd::Zero(m, n);
    W = MatrixXd::Zero(m, n);
    P = MatrixXd::Zero(m, n);
    b = VectorXd(m);
    s = VectorXd::Zero(m);
    ph = VectorXd(m);
    coeffs = VectorXd(m);
    const bool ones = r.chance(0.2);
    for (int i = 0; i < m; ++i)
    {
      b(i) = r.unif(-2, 2);
      ph(i) = r.unif(-3, 3);
      coeffs(i) = ones ? 1.0 : (r.chance(0.05) ? 0.0 : r.unif(0.1, 4));
      if (!linear)
        s(i) = r.unif(-1, 1);
      for (int j = 0; j < n; ++j)
      {
        P(i, j) = r.unif(-2, 2);
        A(i, j) = r.chance(0.3) ? 0.0 : (r.chance(0.03) ? 3e-8 : r.unif(-2, 2));
        if (!linear && A(i, j) != 0 && std::abs(A(i, j)) > 1e-6)
          W(i, j) = r.unif(-1, 1);
      }
      // a squared or absolute cost needs a target, a hinge one limit, a constraint any of them
      int bk = bound_kind;
      if (bk < 0)
        bk = (k == Kind::squared || k == Kind::absolute) ? 0 : (k == Kind::hinge ? r.range(1, 2) : r.range(0, 2));
      bnds.push_back(randBounds(r, bk));
    }
    non_zeros_ = static_cast<Eigen::Index>(m) * n;
  }
  std::vector<Eigen::Index> active(const VectorXd& x) const
  {
    std::vector<Eigen::Index> a;
    for (Eigen::Index i = 0; i < A.rows(); ++i)
      if (!dynamic_ || std::sin(P.row(i).dot(x) + ph(i)) > 0)
        a.push_back(i);
    return a;
  }
  VectorXd ref(const VectorXd& x) const
  {
    const auto a = active(x);
    VectorXd y(static_cast<Eigen::Index>(a.size()));
    for (std::size_t k = 0; k < a.size(); ++k)
      y(static_cast<Eigen::Index>(k)) = A.row(a[k]).dot(x) + b(a[k]) + s(a[k]) * std::sin(W.row(a[k]).dot(x));
    return y;
  }
  MatrixXd refJac(const VectorXd& x) const
  {
    const auto a = active(x);
    MatrixXd J(static_cast<Eigen::Index>(a.size()), A.cols());
    for (std::size_t k = 0; k < a.size(); ++k)
      J.row(static_cast<Eigen::Index>(k)) = A.row(a[k]) + s(a[k]) * std::cos(W.row(a[k]).dot(x)) * W.row(a[k]);
    return J;
  }
  VectorXd refCoeffs(const VectorXd& x) const
  {
    const auto a = active(x);
    VectorXd w(static_cast<Eigen::Index>(a.size()));
    for (std::size_t k = 0; k < a.size(); ++k)
      w(static_cast<Eigen::Index>(k)) = coeffs(a[k]);
    return w;
  }
  std::vector<Bounds> refBounds(const VectorXd& x) const
  {
    std::vector<Bounds> o;
    for (Eigen::Index i : active(x))
      o.push_back(bnds[static_cast<std::size_t>(i)]);
    return o;
  }
  int update() override
  {
    ++updates;
    if (dynamic_)
    {
      rows_now = active(variables_->getValues());
      rows_ = static_cast<int>(rows_now.size());
      non_zeros_ = static_cast<Eigen::Index>(rows_) * A.cols();
    }
    return rows_;
  }
  void fresh() const
  {
    // a set may only be asked about the point it was told about
    if (dynamic_ && rows_now != active(variables_->getValues()))
      throw std::runtime_error("a dynamic set was evaluated without having been updated");
  }
  VectorXd getValues() const override
  {
    fresh();
    return ref(variables_->getValues());
  }
  VectorXd getCoefficients() const override
  {
    fresh();
    return refCoeffs(variables_->getValues());
  }
  std::vector<Bounds> getBounds() const override
  {
    if (dynamic_ && updates == 0)
      return {};
    fresh();
    return refBounds(variables_->getValues());
  }
  Jacobian getJacobian() const override
  {
    fresh();
    const MatrixXd J = refJac(variables_->getValues());
    Jacobian j = J.sparseView(0.0, 0.0);
    if (j.rows() == 0)
      j.resize(0, A.cols());
    return j;
  }
};
using Fn = std::shared_ptr<FnSet>;

/// what a penalty of this kind makes of a row's value
inline double penalty(Kind k, double v, const Bounds& b)
{
  const double e = errRef(v, b);
  return k == Kind::squared ? e * e : std::abs(e);
}

/// the linear model of one set at one point
struct Lin
{
  Fn f;
  VectorXd x0, y0, w;
  MatrixXd J;
  std::vector<Bounds> b;
  Lin(Fn fn, const VectorXd& x) : f(std::move(fn)), x0(x), y0(f->ref(x)), w(f->refCoeffs(x)), J(f->refJac(x)), b(f->refBounds(x)) {}
  VectorXd at(const VectorXd& x) const { return y0 + J * (x - x0); }
  /// weighted penalty, row by row
  VectorXd costs(const VectorXd& x, bool ifopt) const
  {
    const VectorXd v = at(x);
    VectorXd o(v.size());
    for (Eigen::Index i = 0; i < v.size(); ++i)
    {
      const Bounds& bi = b[static_cast<std::size_t>(i)];
      if (ifopt)  // Gauss-Newton: the error at the expansion point continued linearly
      {
        const double e = errRef(y0(i), bi) + J.row(i).dot(x - x0);
        o(i) = w(i) * e * e;
      }
      else
        o(i) = w(i) * penalty(f->kind, v(i), bi);
    }
    return o;
  }
};

struct Prob
{
  bool ifopt{ false };
  VarSet vars;
  Eigen::Index n{ 0 };
  std::shared_ptr<QPProblem> qp;
  std::vector<Fn> costs, cnts;
  VectorXd lb, ub;
};
/// a random problem, complete but not set up
inline Prob randProb(mon::Case& c, bool ifopt, bool dynamic, bool linear, int max_costs = 4, int max_cnts = 4)
{
  mon::Rng& r = c.rng;
  Prob p;
  p.ifopt = ifopt;
  p.vars = randVars(c, r.range(1, 2), r.range(1, 3), true, r.chance(0.4));
  p.n = p.vars.nv->getRows();
  p.lb = VectorXd(p.n);
  p.ub = VectorXd(p.n);
  for (Eigen::Index i = 0; i < p.n; ++i)
  {
    p.lb(i) = p.vars.bounds[static_cast<std::size_t>(i)].getLower();
    p.ub(i) = p.vars.bounds[static_cast<std::size_t>(i)].getUpper();
  }
  if (ifopt)
  {
    if (r.chance(0.5))
      p.qp = std::make_shared<IfoptQPProblem>(p.vars.nv);
    else
      p.qp = std::make_shared<IfoptQPProblem>(std::make_shared<Problem>(p.vars.nv));
  }
  else
    p.qp = std::make_shared<TrajOptQPProblem>(p.vars.nv);
  const int nk = r.range(0, max_costs), nc = r.range(0, max_cnts);
  std::vector<int> order;
  for (int i = 0; i < nk; ++i)
    order.push_back(i);
  for (int i = 0; i < nc; ++i)
    order.push_back(100 + i);
  r.shuffle(order);
  p.costs.resize(static_cast<std::size_t>(nk));
  p.cnts.resize(static_cast<std::size_t>(nc));
  for (int o : order)
  {
    const bool dyn = dynamic && !ifopt && r.chance(0.5);
    const int m = r.range(1, 3);
    const bool lin = linear || r.chance(0.4);
    if (o >= 100)
    {
      Fn f(FnSet::make(r, "c" + std::to_string(o - 100), m, static_cast<int>(p.n), Kind::constraint, lin, dyn, -1));
      p.qp->addConstraintSet(f);
      p.cnts[static_cast<std::size_t>(o - 100)] = f;
    }
    else
    {
      const Kind k = ifopt ? Kind::squared : static_cast<Kind>(r.range(0, 2));
      Fn f(FnSet::make(r, "k" + std::to_string(o), m, static_cast<int>(p.n), k, lin, dyn, ifopt && r.chance(0.3) ? r.range(0, 3) : -1));
      p.qp->addCostSet(f, k == Kind::squared ? CostPenaltyType::kSquared : (k == Kind::hinge ? CostPenaltyType::kHinge : CostPenaltyType::kAbsolute));
      p.costs[static_cast<std::size_t>(o)] = f;
    }
    c.trace << (dyn ? " dyn" : " ") << (o >= 100 ? "c" : "k") << o % 100 << ":" << static_cast<int>((o >= 100 ? p.cnts[static_cast<std::size_t>(o - 100)] : p.costs[static_cast<std::size_t>(o)])->kind) << "x" << m;
  }
  return p;
}

/// everything written to stdout goes nowhere
struct Silent
{
  std::ostringstream sink;
  std::streambuf* old;
  Silent() : old(std::cout.rdbuf(sink.rdbuf())) {}
  ~Silent() { std::cout.rdbuf(old); }
};

/// the set a name stands for (names start with the set's name)
inline std::size_t whose(const std::vector<Fn>& v, const std::string& name)
{
  for (std::size_t i = 0; i < v.size(); ++i)
    if (name.rfind(v[i]->getName(), 0) == 0)
      return i;
  return v.size();
}
}  // namespace sqp
