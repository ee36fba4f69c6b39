// C13: the QP subproblem trajopt_sqp builds is the convex model of the problem at the current point.
#include "sqp_util.h"
using namespace sqp;

namespace
{
/// smallest cost of the slack variables that make every row feasible at x, by the documented form of the matrix
struct Slacks
{
  double cost{ 0 };
  bool ok{ true };
  std::string why;
};
Slacks slackCost(const QPProblem& qp, Eigen::Index n, const VectorXd& x)
{
  Slacks o;
  const MatrixXd A = dense(qp.getConstraintMatrix());
  const VectorXd &l = qp.getBoundsLower(), &u = qp.getBoundsUpper(), &g = qp.getGradient();
  const Eigen::Index nq = qp.getNumQPVars(), m = qp.getNumQPConstraints() - nq;
  for (Eigen::Index i = 0; i < m; ++i)
  {
    const double v = A.row(i).head(n).dot(x);
    double need = 0, best = INFINITY;
    if (v < l(i))
      need = l(i) - v;
    else if (v > u(i))
      need = u(i) - v;
    if (need == 0)
      continue;
    for (Eigen::Index j = n; j < nq; ++j)
      if (A(i, j) * need > 0)
        best = std::min(best, g(j) * need / A(i, j));
    if (!std::isfinite(best))
    {
      o.ok = false;
      o.why = "row " + std::to_string(i) + " cannot be met";
    }
    o.cost += best;
  }
  return o;
}
}  // namespace

FAMILY(subproblems, 50000, 1000000)
{
  mon::Rng& r = c.rng;
  const bool ifopt = r.chance(0.4);
  const bool dynamic = r.chance(0.4);
  Prob p = randProb(c, ifopt, dynamic, r.chance(0.3));
  QPProblem& qp = *p.qp;
  const Eigen::Index n = p.n;
  c.trace << (ifopt ? " ifopt" : " trajopt") << " n " << n;
  c.note(static_cast<int>(n));
  c.note(static_cast<int>(p.costs.size() * 10 + p.cnts.size()));
  c.note(p.vars.x(0));

  VectorXd x = p.vars.x;
  if (r.chance(0.3))
  {
    x = randVec(r, n, 4);
    qp.setVariables(x.data());
  }
  std::vector<Lin> lk, lc;     // the model of the last convexification
  VectorXd box, mu;            // reference
  VectorXd row_lo, row_hi;     // reference of the variables' rows
  bool convex = false;
  auto boxRows = [&]() {
    row_lo = VectorXd(n);
    row_hi = VectorXd(n);
    for (Eigen::Index i = 0; i < n; ++i)
    {
      const double xi = std::min(std::max(x(i), p.lb(i)), p.ub(i));
      row_lo(i) = std::max(xi - box(i), p.lb(i));
      row_hi(i) = std::min(xi + box(i), p.ub(i));
    }
  };
  auto cntRows = [&](const VectorXd& at) {
    Eigen::Index k = 0;
    for (auto& f : p.cnts)
      k += f->ref(at).size();
    return k;
  };
  auto setup = [&]() {
    qp.setup();
    box = qp.getBoxSize();
    mu = qp.getConstraintMeritCoeff();
    convex = false;
    EXPECT(box.size() == n, "sizes", "box of " << box.size());
    const auto& cn = qp.getNLPConstraintNames();
    const auto& kn = qp.getNLPCostNames();
    EXPECT(kn.size() == p.costs.size() && static_cast<std::size_t>(qp.getNumNLPCosts()) == p.costs.size(), "names", kn.size() << " cost names, " << qp.getNumNLPCosts() << " costs, of " << p.costs.size());
    const Eigen::Index want = ifopt ? cntRows(x) : static_cast<Eigen::Index>(p.cnts.size());
    EXPECT(static_cast<Eigen::Index>(cn.size()) == want && qp.getNumNLPConstraints() == want && mu.size() == want, "names", cn.size() << " constraint names, " << qp.getNumNLPConstraints() << " constraints, expected " << want);
    std::vector<int> seen(p.costs.size(), 0), seenc(p.cnts.size(), 0);
    for (const auto& k : kn)
    {
      const std::size_t i = whose(p.costs, k);
      EXPECT(i < p.costs.size() && ++seen[i] == 1, "names", "cost name " << k);
    }
    for (const auto& k : cn)
    {
      const std::size_t i = whose(p.cnts, k);
      EXPECT(i < p.cnts.size() && ++seenc[i] <= (ifopt ? p.cnts[i]->getRows() : 1), "names", "constraint name " << k);
    }
    EXPECT(qp.getNumNLPVars() == n, "sizes", "variables");
    EXPECT(qp.getVariableValues() == x, "values", "setup changed the variables");
  };
  // values of the constraints, as the problem groups them: per row (ifopt) or per set
  auto grouped = [&](const std::function<VectorXd(std::size_t)>& rows_of) {
    std::vector<double> o;
    std::vector<Eigen::Index> at(p.cnts.size(), 0);
    for (const auto& name : qp.getNLPConstraintNames())
    {
      const std::size_t i = whose(p.cnts, name);
      const VectorXd v = rows_of(i);
      o.push_back(ifopt ? v(at[i]++) : v.sum());
    }
    return VectorXd(Eigen::Map<VectorXd>(o.data(), static_cast<Eigen::Index>(o.size())));
  };
  auto violation = [&](const VectorXd& v, const std::vector<Bounds>& b) {
    VectorXd o(v.size());
    for (Eigen::Index i = 0; i < v.size(); ++i)
      o(i) = std::abs(errRef(v(i), b[static_cast<std::size_t>(i)]));
    return o;
  };
  auto exact = [&]() {
    const VectorXd k = qp.getExactCosts(), v = qp.getExactConstraintViolations();
    EXPECT(k.size() == static_cast<Eigen::Index>(p.costs.size()), "sizes", k.size() << " exact costs");
    double sum = 0;
    for (std::size_t q = 0; q < p.costs.size(); ++q)
    {
      const Fn& f = p.costs[whose(p.costs, qp.getNLPCostNames()[q])];
      const VectorXd y = f->ref(x), w = f->refCoeffs(x);
      const auto b = f->refBounds(x);
      double e = 0;
      for (Eigen::Index i = 0; i < y.size(); ++i)
        e += w(i) * penalty(f->kind, y(i), b[static_cast<std::size_t>(i)]);
      EXPECT_CLOSE(k(static_cast<Eigen::Index>(q)), e, "exact-cost", f->getName() << " of kind " << static_cast<int>(f->kind));
      sum += e;
    }
    EXPECT_NEAR_TOL(qp.getTotalExactCost(), sum, 1e-9 * (1 + sum), "exact-total", "the exact cost");
    const VectorXd ref = grouped([&](std::size_t i) { return violation(p.cnts[i]->ref(x), p.cnts[i]->refBounds(x)); });
    EXPECT(v.size() == ref.size(), "sizes", v.size() << " exact violations, expected " << ref.size());
    for (Eigen::Index i = 0; i < ref.size(); ++i)
      EXPECT_CLOSE(v(i), ref(i), "exact-violation", "constraint " << i);
    EXPECT(qp.getVariableValues() == x, "values", "the variables changed");
    c.event("exact");
  };
  auto model = [&]() {
    const Eigen::Index nq = qp.getNumQPVars(), mq = qp.getNumQPConstraints();
    const Jacobian &H = qp.getHessian(), &A = qp.getConstraintMatrix();
    const VectorXd &g = qp.getGradient(), &l = qp.getBoundsLower(), &u = qp.getBoundsUpper();
    Eigen::Index rows = 0, slacks = 0;
    auto count = [&](const Lin& m) {
      rows += m.y0.size();
      for (const auto& b : m.b)
        slacks += b.getType() == BoundsType::kEquality ? 2 : 1;
    };
    for (const auto& m : lc)
      count(m);
    if (!ifopt)
      for (const auto& m : lk)
        if (m.f->kind != Kind::squared)
          count(m);
    EXPECT(nq == n + slacks && mq == rows + nq, "sizes", nq << " variables and " << mq << " rows, expected " << n + slacks << " and " << rows + n + slacks);
    EXPECT(H.rows() == nq && H.cols() == nq && g.size() == nq && A.rows() == mq && A.cols() == nq && l.size() == mq && u.size() == mq, "sizes", "of the matrices");
    const MatrixXd Hd = dense(H), Ad = dense(A);
    EXPECT((Hd - Hd.transpose()).cwiseAbs().maxCoeff() <= 1e-9 * (1 + Hd.cwiseAbs().maxCoeff()), "hessian", "not symmetric");
    EXPECT(slacks == 0 || (Hd.bottomRows(slacks).isZero(0) && Hd.rightCols(slacks).isZero(0)), "hessian", "couples slack variables");
    EXPECT(Ad.bottomRows(nq) == MatrixXd::Identity(nq, nq), "identity", "the rows of the variables are not the identity");
    for (Eigen::Index j = n; j < nq; ++j)
    {
      EXPECT(l(rows + j) == 0 && u(rows + j) > 1e20, "slack-bounds", "slack " << j - n << " in [" << l(rows + j) << ", " << u(rows + j) << "]");
      EXPECT(g(j) >= 0, "slack-cost", "slack " << j - n << " costs " << g(j));
      int used = 0;
      for (Eigen::Index i = 0; i < rows; ++i)
        used += Ad(i, j) != 0;
      EXPECT(used == 1, "slack-rows", "slack " << j - n << " is in " << used << " rows");
    }
    // the objective, minimised over the slack variables, is the penalised linear model up to a constant
    auto objective = [&](const VectorXd& y) {
      const Slacks s = slackCost(qp, n, y);
      EXPECT(s.ok, "slack-rows", s.why);
      return y.dot(Hd.topLeftCorner(n, n) * y) + g.head(n).dot(y) + s.cost;
    };
    auto reference = [&](const VectorXd& y) {
      double o = 0;
      for (const auto& m : lk)
        o += m.costs(y, ifopt).sum();
      std::vector<Eigen::Index> at(lc.size(), 0);
      for (std::size_t k = 0; k < qp.getNLPConstraintNames().size(); ++k)
      {
        const std::size_t i = whose(p.cnts, qp.getNLPConstraintNames()[k]);
        const VectorXd v = violation(lc[i].at(y), lc[i].b);
        if (ifopt)
          o += mu(static_cast<Eigen::Index>(k)) * v(at[i]++);
        else
          o += mu(static_cast<Eigen::Index>(k)) * v.dot(lc[i].w);
      }
      return o;
    };
    const double scale = 1 + mu.cwiseAbs().sum() + Hd.cwiseAbs().sum() * 30 + g.head(n).cwiseAbs().sum() * 5;
    const double dropped = 2e-7 * g.tail(nq - n).cwiseAbs().sum();  // derivatives below 1e-7 count as zero
    const VectorXd x0 = lk.empty() && lc.empty() ? x : (lk.empty() ? lc[0].x0 : lk[0].x0);
    const double o0 = objective(x0), r0 = reference(x0);
    for (int k = 0; k < 4; ++k)
    {
      const VectorXd y = k == 0 ? VectorXd::Zero(n).eval() : (x0 + randVec(r, n, k == 1 ? 0.05 : 3)).eval();
      EXPECT_NEAR_TOL(objective(y) - o0, reference(y) - r0, 3e-6 * scale * (1 + (y - x0).norm()) + dropped * (1 + y.cwiseAbs().sum() + x0.cwiseAbs().sum()), "model", "the subproblem's objective at a point, relative to the expansion point");
    }
    c.event("modelled");
    if (slacks > 0)
      c.event("slacks");
  };
  auto evaluate = [&]() {
    // the evaluation of the convex model, whatever the slack variables are
    const Eigen::Index nq = qp.getNumQPVars();
    const VectorXd x0 = lk.empty() && lc.empty() ? x : (lk.empty() ? lc[0].x0 : lk[0].x0);
    for (int k = 0; k < 3; ++k)
    {
      VectorXd z = VectorXd::Zero(nq);
      z.head(n) = k == 0 ? x0 : (x0 + randVec(r, n, k == 1 ? 0.05 : 2)).eval();
      for (Eigen::Index j = n; j < nq; ++j)
        z(j) = r.chance(0.5) ? 0.0 : r.unif(0, 2);
      const VectorXd y = z.head(n);
      const VectorXd kc = qp.evaluateConvexCosts(z), v = qp.evaluateConvexConstraintViolations(z);
      EXPECT(kc.size() == static_cast<Eigen::Index>(p.costs.size()), "sizes", kc.size() << " convex costs");
      double sum = 0, mag = 1;
      for (std::size_t q = 0; q < p.costs.size(); ++q)
      {
        const Lin& m = lk[whose(p.costs, qp.getNLPCostNames()[q])];
        const double ref = m.costs(y, ifopt).sum();
        const double big = 1 + ref + m.w.sum() * (m.y0.squaredNorm() + m.J.squaredNorm() * (y.squaredNorm() + x0.squaredNorm()));
        EXPECT_NEAR_TOL(kc(static_cast<Eigen::Index>(q)), ref, 2e-6 * big + 2e-7 * (1 + m.w.sum()) * (y.cwiseAbs().sum() + x0.cwiseAbs().sum()), "convex-cost", m.f->getName() << " of kind " << static_cast<int>(m.f->kind) << (k == 0 ? ", at the expansion point" : "") << ", " << p.costs.size() << " costs");
        sum += ref;
        mag += big + m.w.sum() * (y.cwiseAbs().sum() + x0.cwiseAbs().sum());
      }
      EXPECT_NEAR_TOL(qp.evaluateTotalConvexCost(z), sum, 2e-6 * mag, "convex-total", "the convex cost of " << p.costs.size() << " costs");
      const VectorXd ref = grouped([&](std::size_t i) { return violation(lc[i].at(y), lc[i].b); });
      EXPECT(v.size() == ref.size(), "sizes", v.size() << " convex violations, expected " << ref.size());
      for (Eigen::Index i = 0; i < ref.size(); ++i)
        EXPECT_NEAR_TOL(v(i), ref(i), 2e-6 * (1 + ref(i) + y.cwiseAbs().sum() + x0.cwiseAbs().sum()), "convex-violation", "constraint " << i);
    }
    c.event("evaluated");
  };
  auto rowsOfVariables = [&]() {
    const Eigen::Index at = qp.getNumQPConstraints() - qp.getNumQPVars();
    for (Eigen::Index i = 0; i < n; ++i)
    {
      const double lo = qp.getBoundsLower()(at + i), hi = qp.getBoundsUpper()(at + i);
      EXPECT_CLOSE(lo, row_lo(i), "box", "lower limit of variable " << i << " at " << x(i) << ", box " << box(i) << ", bounds [" << p.lb(i) << ", " << p.ub(i) << "]");
      EXPECT_CLOSE(hi, row_hi(i), "box", "upper limit of variable " << i << " at " << x(i) << ", box " << box(i));
      EXPECT(lo >= p.lb(i) && hi <= p.ub(i) && lo <= hi, "box", "[" << lo << ", " << hi << "] of variable " << i << " leaves [" << p.lb(i) << ", " << p.ub(i) << "]");
    }
    c.event("boxed");
  };

  setup();
  exact();
  for (int op = r.range(3, 10); op > 0; --op)
  {
    const int what = r.range(0, 9);
    c.note(what);
    c.trace << "\n  op " << what;
    if (what <= 2)
    {
      x = r.chance(0.5) ? (x + randVec(r, n, 0.3)).eval() : randVec(r, n, 4);
      qp.setVariables(x.data());
    }
    else if (what == 3)
    {
      box = VectorXd(n);
      for (Eigen::Index i = 0; i < n; ++i)
        box(i) = r.pick(std::vector<double>{ 1e-4, 0.01, 0.1, 1, 50 }) * r.unif(0.5, 1);
      qp.setBoxSize(box);
      if (convex)
      {
        boxRows();
        rowsOfVariables();
      }
    }
    else if (what == 4)
    {
      double s = r.pick(std::vector<double>{ 0.1, 0.5, 1.5, 10 });
      qp.scaleBoxSize(s);
      box *= s;
      if (convex)
      {
        boxRows();
        rowsOfVariables();
      }
    }
    else if (what == 5)
    {
      for (Eigen::Index i = 0; i < mu.size(); ++i)
        mu(i) = r.chance(0.1) ? 0.0 : r.unif(0.5, 100);
      qp.setConstraintMeritCoeff(mu);
      EXPECT(qp.getConstraintMeritCoeff() == mu, "merit", "coefficients");
    }
    else if (what == 6 && r.chance(0.4))
    {
      setup();
      c.event("setup_again");
    }
    else
    {
      qp.convexify();
      convex = true;
      lk.clear();
      lc.clear();
      for (auto& f : p.costs)
        lk.emplace_back(f, x);
      for (auto& f : p.cnts)
        lc.emplace_back(f, x);
      boxRows();
      model();
      rowsOfVariables();
    }
    EXPECT(qp.getBoxSize().size() == n && (qp.getBoxSize() - box).cwiseAbs().maxCoeff() <= 1e-12 * (1 + box.cwiseAbs().maxCoeff()), "box", "size " << qp.getBoxSize().transpose() << ", expected " << box.transpose());
    if (convex)
      evaluate();
    exact();
    if (convex && r.chance(0.05))
    {
      Silent quiet_out;
      qp.print();
      EXPECT(quiet_out.sink.str().size() > 100, "print", "nothing was printed");
    }
  }
}

// terms the problems cannot represent are refused
FAMILY(refused, 1000, 20000)
{
  mon::Rng& r = c.rng;
  VarSet s = randVars(c, 1, r.range(1, 3), true);
  const int n = s.nv->getRows();
  c.note(s.x(0));
  auto set = [&](Kind k, int bk, bool dyn) { return Fn(FnSet::make(r, "t", r.range(1, 3), n, k, true, dyn, bk)); };
  const int what = r.range(0, 6);
  c.note(what);
  IfoptQPProblem a(s.nv);
  TrajOptQPProblem b(s.nv);
  switch (what)
  {
    case 0:
      EXPECT_THROW_STD(a.addConstraintSet(set(Kind::constraint, 0, true)), "refused", "a dynamic constraint");
      EXPECT_THROW_STD(a.addCostSet(set(Kind::squared, 0, true), CostPenaltyType::kSquared), "refused", "a dynamic cost");
      break;
    case 1: EXPECT_THROW_STD(a.addCostSet(set(Kind::hinge, 1, false), CostPenaltyType::kHinge), "refused", "a hinge cost"); break;
    case 2:
    {
      a.addConstraintSet(set(Kind::constraint, r.range(3, 4), false));
      EXPECT_THROW_STD(a.setup(), "refused", "a constraint with a range or without limits");
      break;
    }
    case 3: EXPECT_THROW_STD(b.addCostSet(set(Kind::squared, r.range(1, 4), false), CostPenaltyType::kSquared), "refused", "a squared cost without a target"); break;
    case 4: EXPECT_THROW_STD(b.addCostSet(set(Kind::absolute, r.range(1, 4), false), CostPenaltyType::kAbsolute), "refused", "an absolute cost without a target"); break;
    case 5: EXPECT_THROW_STD(b.addCostSet(set(Kind::hinge, r.pick(std::vector<int>{ 0, 3, 4 }), false), CostPenaltyType::kHinge), "refused", "a hinge cost with another kind of limits"); break;
    default:
    {
      b.addConstraintSet(set(Kind::constraint, r.range(3, 4), false));
      b.setup();
      EXPECT_THROW_STD(b.convexify(), "refused", "a constraint with a range or without limits");
      break;
    }
  }
  c.event("refused");
}

// absolute costs in the problem made of ifopt parts
FAMILY(ifopt_absolute, 40, 400)
{
  mon::Rng& r = c.rng;
  VarSet s = randVars(c, 1, r.range(1, 3), false);
  const int n = s.nv->getRows();
  IfoptQPProblem a(s.nv);
  Fn f(FnSet::make(r, "t", 1, n, Kind::absolute, true, false, 0));
  a.addCostSet(f, CostPenaltyType::kAbsolute);
  a.setup();
  c.note(s.x(0));
  const Lin m(f, s.x);
  const double e = m.w(0) * std::abs(errRef(m.y0(0), m.b[0]));
  EXPECT_CLOSE(a.getTotalExactCost(), e, "exact-cost", "an absolute cost");
  a.convexify();
  VectorXd z = VectorXd::Zero(a.getNumQPVars());
  z.head(n) = s.x;
  EXPECT_CLOSE(a.evaluateTotalConvexCost(z), e, "convex-cost", "an absolute cost at the expansion point");
  z.head(n) += randVec(r, n, 0.5);
  const double ref = m.costs(z.head(n), false).sum();
  EXPECT_NEAR_TOL(a.evaluateTotalConvexCost(z), ref, 1e-5 * (1 + ref), "ifopt-absolute-model", "the convex model of a linear absolute cost is not that cost (it is that of the square)");
  c.event("absolute");
}
MON_MAIN
