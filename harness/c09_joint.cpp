// C09: joint constraints and cost terms of trajopt_ifopt: values, exact derivatives, bounds and coefficients.
#include "ifopt_util.h"
#include <trajopt_ifopt/constraints/joint_acceleration_constraint.h>
#include <trajopt_ifopt/constraints/joint_jerk_constraint.h>
#include <trajopt_ifopt/constraints/joint_position_constraint.h>
#include <trajopt_ifopt/constraints/joint_velocity_constraint.h>
#include <trajopt_ifopt/costs/absolute_cost.h>
#include <trajopt_ifopt/costs/squared_cost.h>
using namespace ifo;

namespace
{
/// what every constraint set has to be consistent in
void structure(mon::Case& c, const ConstraintSet& s, int rows, Eigen::Index cols)
{
  EXPECT(s.getRows() == rows, "rows", s.getName() << " has " << s.getRows() << " rows, expected " << rows);
  EXPECT(s.getValues().size() == rows, "rows", "values " << s.getValues().size());
  EXPECT(s.getBounds().size() == static_cast<std::size_t>(rows), "rows", "bounds " << s.getBounds().size());
  EXPECT(s.getCoefficients().size() == rows, "rows", "coefficients " << s.getCoefficients().size());
  const Jacobian j = s.getJacobian();
  EXPECT(j.rows() == rows && j.cols() == cols, "rows", "Jacobian " << j.rows() << "x" << j.cols());
  EXPECT(s.getNonZeros() >= j.nonZeros(), "nonzeros", s.getName() << " announces " << s.getNonZeros() << " of " << j.nonZeros());
  // well formed rows
  for (int r = 0; r < j.outerSize(); ++r)
  {
    Eigen::Index last = -1;
    for (Jacobian::InnerIterator it(j, r); it; ++it)
    {
      EXPECT(it.col() > last && it.col() < cols, "structure", "row " << r << " column " << it.col());
      last = it.col();
    }
  }
}
/// linear rows: D q with the joint values q of every step
struct Stencil
{
  std::vector<std::vector<std::pair<int, double>>> rows;  ///< per step: (step, factor)
};
Stencil stencil(int order, int n)
{
  Stencil s;
  auto diff = [](int order) -> std::vector<double> {
    switch (order)
    {
      case 1: return { -1, 1 };
      case 2: return { 1, -2, 1 };
      default: return { -1, 3, -3, 1 };
    }
  };
  const auto f = diff(order);
  const int steps = order == 1 ? n - 1 : n;
  for (int i = 0; i < steps; ++i)
  {
    // forward as long as it fits, backward (ending at this step) otherwise: always the same divided difference
    const int first = i + order < n ? i : i - order;
    std::vector<std::pair<int, double>> row;
    for (int k = 0; k <= order; ++k)
      row.emplace_back(first + k, f[static_cast<std::size_t>(k)]);
    s.rows.push_back(row);
  }
  return s;
}
template <class T>
void trajectory(mon::Case& c, int order, int least, double default_coeff)
{
  mon::Rng& r = c.rng;
  const int nodes = r.chance(0.1) ? r.range(1, least - 1) : r.range(least, least + 8);
  const int dof = r.range(1, 7);
  VarSet s = randVars(c, nodes + (r.chance(0.2) ? r.range(1, 3) : 0), dof, r.chance(0.5));
  std::vector<std::shared_ptr<const Var>> vars;
  std::vector<Eigen::Index> idx;
  {
    // a subset in order
    std::vector<std::size_t> pick(s.joints.size());
    for (std::size_t i = 0; i < pick.size(); ++i)
      pick[i] = i;
    while (pick.size() > static_cast<std::size_t>(nodes))
      pick.erase(pick.begin() + r.range(0, static_cast<int>(pick.size()) - 1));
    for (std::size_t i : pick)
    {
      vars.push_back(s.joints[i]);
      idx.push_back(s.joint_index[i]);
    }
  }
  const int n = static_cast<int>(vars.size());
  const VectorXd targets = randVec(r, dof);
  VectorXd coeffs;
  int ck = r.range(0, 5);
  switch (ck)
  {
    case 0: break;
    case 1: coeffs = VectorXd::Constant(1, r.unif(0.1, 20)); break;
    case 4:
      coeffs = VectorXd::Constant(dof, 1.5);
      coeffs(r.range(0, dof - 1)) = r.chance(0.5) ? 0.0 : -r.unif(0.1, 3);
      break;
    case 5:
      coeffs = VectorXd::Constant(dof + r.range(1, 3), 2.0);
      break;
    default:
      coeffs = VectorXd(dof);
      for (int k = 0; k < dof; ++k)
        coeffs(k) = r.unif(0.1, 20);
  }
  c.trace << " order " << order << " n " << n << " dof " << dof << " coeffs " << ck;
  c.note(order);
  c.note(n);
  c.note(dof);
  c.note(ck);
  c.note(s.x(0));
  if (n < least || ck >= 4)
  {
    EXPECT_THROW_STD(T(targets, vars, coeffs, "bad"), "refused", "a trajectory constraint with " << n << " positions and " << coeffs.transpose());
    c.event("refused");
    return;
  }
  auto cnt = std::make_shared<T>(targets, vars, coeffs, "cnt");
  cnt->linkWithVariables(s.nv);
  const Stencil st = stencil(order, n);
  const int rows = static_cast<int>(st.rows.size()) * dof;
  structure(c, *cnt, rows, s.nv->getRows());
  const auto b = cnt->getBounds();
  const VectorXd co = cnt->getCoefficients();
  for (int i = 0; i < rows; ++i)
  {
    const int k = i % dof;
    EXPECT(b[static_cast<std::size_t>(i)].getLower() == targets(k) && b[static_cast<std::size_t>(i)].getUpper() == targets(k), "bounds", "row " << i);
    EXPECT(b[static_cast<std::size_t>(i)].getType() == BoundsType::kEquality, "bounds", "row " << i << " is not an equality");
    const double want = coeffs.size() == 0 ? default_coeff : (coeffs.size() == 1 ? coeffs(0) : coeffs(k));
    EXPECT(co(i) == want, "coefficients", "row " << i << " has " << co(i) << ", expected " << want);
  }
  MatrixXd D = MatrixXd::Zero(rows, s.nv->getRows());
  for (std::size_t i = 0; i < st.rows.size(); ++i)
    for (int k = 0; k < dof; ++k)
      for (const auto& e : st.rows[i])
        D(static_cast<Eigen::Index>(i) * dof + k, idx[static_cast<std::size_t>(e.first)] + k) += e.second;
  VectorXd x = s.x;
  for (int round = 0; round < 3; ++round)
  {
    EXPECT(cnt->update() == rows, "rows", "update");
    const VectorXd v = cnt->getValues();
    const VectorXd want = D * x;
    for (int i = 0; i < rows; ++i)
      EXPECT_NEAR_TOL(v(i), want(i), 1e-9 * (1 + x.cwiseAbs().maxCoeff()), "value", "order " << order << " row " << i);
    const MatrixXd J = dense(cnt->getJacobian());
    EXPECT((J - D).cwiseAbs().maxCoeff() == 0, "jacobian", "order " << order << "\n" << J - D);
    c.event("trajectory_value");
    x = randVec(r, s.nv->getRows(), round == 1 ? 1e4 : 3);
    s.nv->setVariables(x);
  }
}
}  // namespace

FAMILY(velocity, 5000, 100000) { trajectory<JointVelConstraint>(c, 1, 2, 5.0); }
FAMILY(acceleration, 5000, 100000) { trajectory<JointAccelConstraint>(c, 2, 4, 1.0); }
FAMILY(jerk, 5000, 100000) { trajectory<JointJerkConstraint>(c, 3, 6, 1.0); }

// a trajectory of exact polynomial shape has an exactly known difference at every step
FAMILY(polynomial, 4000, 50000)
{
  mon::Rng& r = c.rng;
  const int n = r.range(6, 14), dof = r.range(1, 5);
  VarSet s = randVars(c, n, dof, false);
  // q_k(t) = a + b t + d t^2/2 + e t^3/6 at t = 0..n-1, small integers: all arithmetic exact
  MatrixXd p(4, dof);
  for (int i = 0; i < 4; ++i)
    for (int k = 0; k < dof; ++k)
      p(i, k) = 6 * r.range(-4, 4);
  VectorXd x = randVec(r, s.nv->getRows());
  for (int t = 0; t < n; ++t)
    for (int k = 0; k < dof; ++k)
      x(s.joint_index[static_cast<std::size_t>(t)] + k) = p(0, k) + p(1, k) * t + p(2, k) / 2 * t * t + p(3, k) / 6 * t * t * t;
  s.nv->setVariables(x);
  const VectorXd one = VectorXd::Constant(1, 1.0), zero = VectorXd::Zero(dof);
  JointJerkConstraint jerk(zero, s.joints, one);
  jerk.linkWithVariables(s.nv);
  const VectorXd j = jerk.getValues();
  for (int t = 0; t < n; ++t)
    for (int k = 0; k < dof; ++k)
      EXPECT(j(t * dof + k) == p(3, k), "value", "jerk of a cubic at step " << t << ": " << j(t * dof + k) << ", expected " << p(3, k));
  JointAccelConstraint acc(zero, s.joints, one);
  acc.linkWithVariables(s.nv);
  const VectorXd a = acc.getValues();
  for (int t = 0; t < n; ++t)
    for (int k = 0; k < dof; ++k)
    {
      const int first = t + 2 < n ? t : t - 2;
      EXPECT(a(t * dof + k) == p(2, k) + p(3, k) * (first + 1), "value", "acceleration at step " << t);
    }
  JointVelConstraint vel(zero, s.joints, one);
  vel.linkWithVariables(s.nv);
  const VectorXd v = vel.getValues();
  for (int t = 0; t + 1 < n; ++t)
    for (int k = 0; k < dof; ++k)
      EXPECT(v(t * dof + k) == x(s.joint_index[static_cast<std::size_t>(t + 1)] + k) - x(s.joint_index[static_cast<std::size_t>(t)] + k), "value", "velocity at step " << t);
  c.note(n);
  c.note(x(0));
  c.event("polynomial");
}

FAMILY(position, 10000, 200000)
{
  mon::Rng& r = c.rng;
  const int dof = r.range(1, 7), nodes = r.range(1, 4);
  VarSet s = randVars(c, nodes, dof, r.chance(0.5));
  const int at = r.range(0, nodes - 1);
  const auto& var = s.joints[static_cast<std::size_t>(at)];
  const Eigen::Index idx = s.joint_index[static_cast<std::size_t>(at)];
  const bool by_bounds = r.chance(0.7);
  const auto handling = r.chance(0.6) ? RangeBoundHandling::kSplitToTwoInequalities : RangeBoundHandling::kKeepAsIs;
  VectorXd coeffs;
  const int ck = r.range(0, 5);
  switch (ck)
  {
    case 0: break;
    case 1: coeffs = VectorXd::Constant(1, r.unif(0.1, 20)); break;
    case 4:
      coeffs = VectorXd::Constant(dof, 1.5);
      coeffs(r.range(0, dof - 1)) = r.chance(0.5) ? 0.0 : -r.unif(0.1, 3);
      break;
    case 5: coeffs = VectorXd::Constant(dof + r.range(1, 3), 2.0); break;
    default:
      coeffs = VectorXd(dof);
      for (int k = 0; k < dof; ++k)
        coeffs(k) = r.unif(0.1, 20);
  }
  std::vector<Bounds> b;
  VectorXd target = randVec(r, dof);
  for (int k = 0; k < dof; ++k)
    b.push_back(by_bounds ? randBounds(r) : Bounds(target(k), target(k)));
  c.trace << " dof " << dof << " by_bounds " << by_bounds << " split " << (handling == RangeBoundHandling::kSplitToTwoInequalities) << " coeffs " << ck;
  c.note(dof);
  c.note(ck);
  c.note(by_bounds);
  c.note(b[0].getLower());
  auto make = [&]() {
    return by_bounds ? std::make_shared<JointPosConstraint>(b, var, coeffs, "pos", handling) :
                       std::make_shared<JointPosConstraint>(target, var, coeffs, "pos", handling);
  };
  if (ck >= 4 || (!by_bounds && ck == 0))
  {
    EXPECT_THROW_STD(make(), "refused", "coefficients " << coeffs.transpose());
    c.event("refused");
    return;
  }
  auto cnt = make();
  cnt->linkWithVariables(s.nv);
  // expected rows
  std::vector<Bounds> eb;
  std::vector<int> ei;
  for (int k = 0; k < dof; ++k)
  {
    if (by_bounds && handling == RangeBoundHandling::kSplitToTwoInequalities && b[static_cast<std::size_t>(k)].getType() == BoundsType::kRangeBound)
    {
      eb.emplace_back(b[static_cast<std::size_t>(k)].getLower(), INFINITY);
      eb.emplace_back(-INFINITY, b[static_cast<std::size_t>(k)].getUpper());
      ei.push_back(k);
      ei.push_back(k);
      c.event("range_split");
    }
    else
    {
      eb.push_back(b[static_cast<std::size_t>(k)]);
      ei.push_back(k);
    }
  }
  const int rows = static_cast<int>(eb.size());
  structure(c, *cnt, rows, s.nv->getRows());
  const auto gb = cnt->getBounds();
  const VectorXd co = cnt->getCoefficients();
  VectorXd x = s.x;
  for (int round = 0; round < 2; ++round)
  {
    const VectorXd v = cnt->getValues();
    const MatrixXd J = dense(cnt->getJacobian());
    for (int i = 0; i < rows; ++i)
    {
      const int k = ei[static_cast<std::size_t>(i)];
      EXPECT(gb[static_cast<std::size_t>(i)].getLower() == eb[static_cast<std::size_t>(i)].getLower() && gb[static_cast<std::size_t>(i)].getUpper() == eb[static_cast<std::size_t>(i)].getUpper() &&
                 gb[static_cast<std::size_t>(i)].getType() == eb[static_cast<std::size_t>(i)].getType(),
             "bounds", "row " << i << ": [" << gb[static_cast<std::size_t>(i)].getLower() << ", " << gb[static_cast<std::size_t>(i)].getUpper() << "]");
      const double want = coeffs.size() == 0 ? 1.0 : (coeffs.size() == 1 ? coeffs(0) : coeffs(k));
      EXPECT(co(i) == want, "coefficients", "row " << i << " has " << co(i) << ", expected " << want);
      EXPECT(v(i) == x(idx + k), "value", "row " << i << " is " << v(i) << ", joint " << x(idx + k));
      for (Eigen::Index j = 0; j < J.cols(); ++j)
        EXPECT(J(i, j) == (j == idx + k ? 1.0 : 0.0), "jacobian", "row " << i << " column " << j);
    }
    c.event("position_value");
    x = randVec(r, s.nv->getRows());
    s.nv->setVariables(x);
  }
}

// squared and absolute costs over any constraint set
FAMILY(costs, 15000, 300000)
{
  mon::Rng& r = c.rng;
  const int nodes = r.range(1, 4), dof = r.range(1, 4);
  VarSet s = randVars(c, nodes, dof, false);
  const int n = s.nv->getRows();
  const int m = r.range(1, 5);
  auto set = std::make_shared<RandSet>(r, "set", m, n, r.chance(0.4));
  set->linkWithVariables(s.nv);
  VectorXd w = VectorXd::Ones(m);
  const bool weighted = r.chance(0.75);
  if (weighted)
    for (int i = 0; i < m; ++i)
      w(i) = r.chance(0.1) ? 0.0 : (r.chance(0.2) ? -1.0 : 1.0) * r.unif(0.1, 10);
  const bool squared = r.chance(0.5);
  std::shared_ptr<CostTerm> cost;
  if (squared)
    cost = weighted ? std::make_shared<SquaredCost>(set, w) : std::make_shared<SquaredCost>(set);
  else
    cost = weighted ? std::shared_ptr<CostTerm>(std::make_shared<AbsoluteCost>(set, w)) : std::make_shared<AbsoluteCost>(set);
  cost->linkWithVariables(s.nv);
  c.trace << (squared ? " squared" : " absolute") << " m " << m << " n " << n << " w " << w.transpose();
  c.note(squared);
  c.note(m);
  c.note(n);
  c.note(s.x(0));
  EXPECT(cost->getRows() == 1 && cost->getBounds().size() == 1 && cost->getBounds()[0].getType() == BoundsType::kUnbounded, "rows", "a cost is one unbounded row");
  VectorXd x = s.x;
  auto value = [&](const VectorXd& x) {
    const VectorXd y = set->ref(x);
    double v = 0;
    for (int i = 0; i < m; ++i)
    {
      const double e = errRef(y(i), set->bnds[static_cast<std::size_t>(i)]);
      v += std::abs(w(i)) * (squared ? e * e : std::abs(e));
    }
    return v;
  };
  for (int round = 0; round < 2; ++round)
  {
    const int before = set->updates;
    EXPECT(cost->update() == 1, "rows", "update");
    EXPECT(set->updates > before, "update", "the constraint was updated " << set->updates - before << " times");
    const VectorXd y = set->ref(x);
    const MatrixXd J = set->refJac(x);
    VectorXd g = VectorXd::Zero(n);
    bool tie = false;
    for (int i = 0; i < m; ++i)
    {
      const double e = errRef(y(i), set->bnds[static_cast<std::size_t>(i)]);
      tie |= !squared && std::abs(e) > 0 && std::abs(e) < 1e-9;
      tie |= !squared && std::abs(e) == 0 && (std::abs(y(i) - set->bnds[static_cast<std::size_t>(i)].getLower()) < 1e-9 || std::abs(y(i) - set->bnds[static_cast<std::size_t>(i)].getUpper()) < 1e-9);
      g += std::abs(w(i)) * (squared ? 2 * e : (e > 0 ? 1.0 : (e < 0 ? -1.0 : 0.0))) * J.row(i).transpose();
    }
    const double v = value(x);
    const VectorXd gv = cost->getValues();
    EXPECT(gv.size() == 1, "rows", "values");
    EXPECT_NEAR_TOL(gv(0), v, 1e-9 * (1 + std::abs(v)), "cost", "cost at round " << round);
    const Jacobian gj = cost->getJacobian();
    EXPECT(gj.rows() == 1 && gj.cols() == n, "rows", "gradient " << gj.rows() << "x" << gj.cols());
    if (!tie)
    {
      const MatrixXd G = dense(gj);
      for (int j = 0; j < n; ++j)
        EXPECT_NEAR_TOL(G(0, j), g(j), 1e-9 * (1 + std::abs(g(j)) + std::abs(v)), "gradient", "gradient of column " << j);
      c.event("gradient");
    }
    const VectorXd co = cost->getCoefficients();
    EXPECT(co.size() == m && co == set->coeffs, "coefficients", "those of the constraint");
    if (v > 0)
      c.event("nonzero_cost");
    x = randVec(r, n, 2);
    s.nv->setVariables(x);
  }
}

MON_MAIN
