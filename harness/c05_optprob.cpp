// C05: the optimisation problem keeps its variables, bounds, costs and constraints, and repairs points into its bounds.
#include "sco_util.h"
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/modeling_utils.hpp>
using namespace sco;
using namespace scou;

namespace
{
struct NamedCost : Cost
{
  explicit NamedCost(const std::string& n) : Cost(n) {}
  double value(const DblVec&) override { return 1; }
  ConvexObjective::Ptr convex(const DblVec&, Model* m) override { return std::make_shared<ConvexObjective>(m); }
  VarVector getVars() override { return {}; }
};
struct NamedCnt : Constraint
{
  ConstraintType t;
  NamedCnt(const std::string& n, ConstraintType t) : t(t) { name_ = n; }
  ConstraintType type() override { return t; }
  DblVec value(const DblVec&) override { return { 0.5, -0.5 }; }
  ConvexConstraints::Ptr convex(const DblVec&, Model* m) override { return std::make_shared<ConvexConstraints>(m); }
  VarVector getVars() override { return {}; }
};
struct Shadow
{
  std::vector<std::string> names;
  DblVec lb, ub;
};
void compare(mon::Case& c, OptProb& p, const Shadow& s)
{
  EXPECT(p.getNumVars() == static_cast<int>(s.names.size()) && p.getVars().size() == s.names.size(), "variables", "number of variables");
  for (std::size_t i = 0; i < s.names.size(); ++i)
  {
    EXPECT(p.getVars()[i].var_rep->name == s.names[i] && p.getVars()[i].var_rep->index == i, "variables", "variable " << i << " is " << p.getVars()[i].var_rep->name);
    EXPECT(p.getLowerBounds()[i] == s.lb[i] && p.getUpperBounds()[i] == s.ub[i], "bounds", "bounds of variable " << i);
  }
  EXPECT(p.getLowerBounds().size() == s.names.size() && p.getUpperBounds().size() == s.names.size(), "bounds", "number of bounds");
  c.event("bookkeeping");
}
}  // namespace

FAMILY(bookkeeping, 4000, 100000)
{
  OptProb p(ModelType::BPMPD);
  Shadow s;
  std::vector<std::string> costs, eqs, ineqs;
  const int ops = c.rng.range(3, 14);
  for (int k = 0; k < ops; ++k)
  {
    const int op = s.names.empty() ? 0 : c.rng.range(0, 7);
    c.trace << ' ' << op;
    c.note(op);
    auto bound = [&](double lo, double hi) { return c.rng.chance(0.2) ? (lo < 0 ? -INFINITY : INFINITY) : c.rng.unif(lo, hi); };
    if (op <= 1)
    {
      const int n = c.rng.range(0, 4);
      std::vector<std::string> nm;
      DblVec lo, hi;
      for (int i = 0; i < n; ++i)
      {
        nm.push_back("x" + std::to_string(s.names.size() + static_cast<std::size_t>(i)));
        lo.push_back(bound(-3, -0.1));
        hi.push_back(bound(0.1, 3));
      }
      VarVector got;
      if (op == 0)
        got = p.createVariables(nm, lo, hi);
      else
      {
        got = p.createVariables(nm);
        lo.assign(nm.size(), -INFINITY);
        hi.assign(nm.size(), INFINITY);
      }
      EXPECT(got.size() == nm.size(), "created", "created " << got.size() << " of " << nm.size());
      for (std::size_t i = 0; i < nm.size(); ++i)
        EXPECT(got[i].var_rep->name == nm[i], "created", "returned variable " << got[i].var_rep->name << " for " << nm[i]);
      s.names.insert(s.names.end(), nm.begin(), nm.end());
      s.lb.insert(s.lb.end(), lo.begin(), lo.end());
      s.ub.insert(s.ub.end(), hi.begin(), hi.end());
    }
    else if (op <= 4)
    {
      const bool lower = c.rng.chance(0.5);
      DblVec& ref = lower ? s.lb : s.ub;
      if (op == 2)
      {
        for (auto& v : ref)
          v = lower ? bound(-3, -0.1) : bound(0.1, 3);
        if (lower) p.setLowerBounds(ref); else p.setUpperBounds(ref);
      }
      else
      {
        VarVector vs = p.getVars();
        c.rng.shuffle(vs);
        vs.resize(static_cast<std::size_t>(c.rng.range(0, static_cast<int>(vs.size()))));
        DblVec val;
        for (const auto& v : vs)
        {
          val.push_back(lower ? bound(-3, -0.1) : bound(0.1, 3));
          ref[v.var_rep->index] = val.back();
        }
        if (lower) p.setLowerBounds(val, vs); else p.setUpperBounds(val, vs);
      }
    }
    else if (op == 5)
    {
      costs.push_back("c" + std::to_string(costs.size()));
      p.addCost(std::make_shared<NamedCost>(costs.back()));
    }
    else
    {
      const bool eq = c.rng.chance(0.5);
      auto& l = eq ? eqs : ineqs;
      l.push_back((eq ? "e" : "i") + std::to_string(l.size()));
      auto k2 = std::make_shared<NamedCnt>(l.back(), eq ? EQ : INEQ);
      if (op == 6)
        p.addConstraint(k2);
      else if (eq)
        p.addEqConstraint(k2);
      else
        p.addIneqConstraint(k2);
    }
    compare(c, p, s);
  }
  auto names = [](const auto& v) {
    std::vector<std::string> r;
    for (const auto& x : v)
      r.push_back(x->name());
    return r;
  };
  EXPECT(names(p.getCosts()) == costs && p.getNumCosts() == static_cast<int>(costs.size()), "costs", "costs lost or re-ordered");
  EXPECT(names(p.getEqConstraints()) == eqs && names(p.getIneqConstraints()) == ineqs, "constraints", "constraints lost, re-ordered or of the wrong kind");
  auto all = names(p.getConstraints());
  std::sort(all.begin(), all.end());
  std::vector<std::string> want = eqs;
  want.insert(want.end(), ineqs.begin(), ineqs.end());
  std::sort(want.begin(), want.end());
  EXPECT(all == want && p.getNumConstraints() == static_cast<int>(want.size()), "constraints", "the list of all constraints is not their union");
  // violations follow the kind
  for (const auto& k : p.getConstraints())
  {
    const bool eq = k->type() == EQ;
    const DblVec v = k->violations({});
    EXPECT(v.size() == 2 && v[0] == 0.5 && v[1] == (eq ? 0.5 : 0.0) && std::fabs(k->violation({}) - (eq ? 1.0 : 0.5)) < 1e-12, "violation", "violation of a row");
  }
}

FAMILY(closest_feasible, 6000, 200000)
{
  OptProb p(ModelType::BPMPD);
  const int n = c.rng.range(1, 7);
  std::vector<std::string> nm;
  DblVec lo, hi, x;
  const double delta = c.rng.pick(std::vector<double>{ 1e-3, 1e-3, 0.0, 1e-6, 0.05 });
  for (int i = 0; i < n; ++i)
  {
    nm.push_back("x" + std::to_string(i));
    double a = c.rng.unif(-3, 3), b = a;
    const int k = c.rng.range(0, 9);
    if (k > 1) b = a + c.rng.unif(0.2, 4);
    if (k == 1) b = a + c.rng.unif(0, 1.5) * delta;  // narrower than the margin
    lo.push_back(k == 2 || k == 4 ? -INFINITY : a);
    hi.push_back(k == 3 || k == 4 ? INFINITY : b);
    switch (c.rng.range(0, 5))
    {
      case 0: x.push_back(a - c.rng.unif(0, 3)); break;
      case 1: x.push_back(b + c.rng.unif(0, 3)); break;
      case 2: x.push_back(a); break;
      case 3: x.push_back(b); break;
      default: x.push_back(c.rng.unif(a, b));
    }
  }
  p.createVariables(nm, lo, hi);
  const bool dflt = delta == 1e-3 && c.rng.chance(0.5);
  const DblVec y = dflt ? p.getClosestFeasiblePoint(x) : p.getClosestFeasiblePoint(x, delta);
  c.trace << "n=" << n << " delta=" << delta << " lb0=" << lo[0] << " ub0=" << hi[0] << " x0=" << x[0];
  c.note(n); c.note(delta); c.note(x[0]);
  EXPECT(y.size() == x.size(), "size", "wrong size");
  const double t = 1e-12;
  for (int i = 0; i < n; ++i)
  {
    const auto k = static_cast<std::size_t>(i);
    EXPECT(y[k] >= lo[k] - t && y[k] <= hi[k] + t, "outside-limits", "variable " << i << " in [" << lo[k] << ", " << hi[k] << "], input " << x[k] << ", margin " << delta << " becomes " << y[k]);
    // no further than the margin requires
    const double proj = std::min(hi[k], std::max(lo[k], x[k]));
    EXPECT(std::fabs(y[k] - proj) <= delta + t, "not-closest", "variable " << i << " in [" << lo[k] << ", " << hi[k] << "], input " << x[k] << ", margin " << delta << " becomes " << y[k]);
    if (x[k] >= lo[k] + delta && x[k] <= hi[k] - delta)
      EXPECT(y[k] == x[k], "inside-changed", "variable " << i << " is inside its limits and changes from " << x[k] << " to " << y[k]);
    else if (hi[k] - lo[k] >= 2 * delta && (x[k] < lo[k] || x[k] > hi[k]))
      EXPECT(std::min(y[k] - lo[k], hi[k] - y[k]) >= delta * (1 - 1e-9) - t, "no-margin", "variable " << i << " is put at " << y[k] << ", closer than " << delta << " to [" << lo[k] << ", " << hi[k] << "]");
  }
  // the same answer again (repeatable), and a fixed point
  const DblVec y2 = dflt ? p.getClosestFeasiblePoint(x) : p.getClosestFeasiblePoint(x, delta);
  EXPECT(y2 == y, "not-repeatable", "two calls differ");
  c.event("repaired");
  // the middle of finite ranges
  bool fin = true;
  for (int i = 0; i < n; ++i)
    fin = fin && std::isfinite(lo[static_cast<std::size_t>(i)]) && std::isfinite(hi[static_cast<std::size_t>(i)]);
  if (fin)
  {
    const DblVec z = p.getCentralFeasiblePoint(x);
    for (int i = 0; i < n; ++i)
    {
      const auto k = static_cast<std::size_t>(i);
      EXPECT(std::fabs(z[k] - 0.5 * (lo[k] + hi[k])) < 1e-9, "central", "variable " << i << " in [" << lo[k] << ", " << hi[k] << "] put at " << z[k]);
    }
    c.event("central");
  }
}

FAMILY(closest_feasible_qp, 700, 30000)
{
  OptProb p(ModelType::BPMPD);
  const int n = c.rng.range(1, 4);
  std::vector<std::string> nm;
  DblVec lo, hi, x, in;
  for (int i = 0; i < n; ++i)
  {
    nm.push_back("x" + std::to_string(i));
    lo.push_back(c.rng.unif(-3, 1));
    hi.push_back(lo.back() + c.rng.unif(0.2, 3));
    x.push_back(c.rng.unif(-5, 5));
    in.push_back(c.rng.unif(lo.back() + 0.05, hi.back() - 0.05));
  }
  const VarVector vs = p.createVariables(nm, lo, hi);
  TinyQP o(n);
  const int m = c.rng.range(0, 3);
  int eqs = 0;
  for (int r = 0; r < m; ++r)
  {
    AffExpr e;
    Eigen::VectorXd a(n);
    double at = 0;
    for (int i = 0; i < n; ++i)
    {
      a(i) = c.rng.nonzero(0.2, 2);
      at += a(i) * in[static_cast<std::size_t>(i)];
      exprInc(e, exprMult(AffExpr(vs[static_cast<std::size_t>(i)]), a(i)));
    }
    const bool eq = eqs + 1 < n && c.rng.chance(0.4);
    e.constant = -at - (eq ? 0 : c.rng.unif(0, 1));
    p.addLinearConstraint(e, eq ? EQ : INEQ);
    eqs += eq ? 1 : 0;
    (eq ? o.eq_a : o.in_a).push_back(a);
    (eq ? o.eq_c : o.in_c).push_back(e.constant);
  }
  // limits changed after creation must count
  if (c.rng.chance(0.4))
  {
    for (int i = 0; i < n; ++i)
    {
      lo[static_cast<std::size_t>(i)] -= c.rng.unif(0, 0.5);
      hi[static_cast<std::size_t>(i)] += c.rng.unif(0, 0.5);
    }
    p.setLowerBounds(lo);
    p.setUpperBounds(hi);
  }
  Eigen::VectorXd xe(n);
  for (int i = 0; i < n; ++i)
  {
    const auto k = static_cast<std::size_t>(i);
    xe(i) = x[k];
    o.in_a.push_back(Eigen::VectorXd::Unit(n, i)); o.in_c.push_back(-hi[k]);
    o.in_a.emplace_back(-Eigen::VectorXd::Unit(n, i)); o.in_c.push_back(lo[k]);
  }
  o.obj.Q.setIdentity();
  o.obj.g = -2 * xe;
  o.obj.c = xe.squaredNorm();
  c.trace << "n=" << n << " rows=" << m << " x=" << xe.transpose();
  c.note(n); c.note(m); c.note(x[0]);
  const DblVec y = p.getClosestFeasiblePointQP(x);
  EXPECT(y.size() == x.size(), "size", "wrong size");
  const auto r = o.solve();
  if (!std::get<0>(r))
    return;
  Eigen::VectorXd ye = Eigen::Map<const Eigen::VectorXd>(y.data(), n);
  EXPECT(o.violation(ye) < 1e-4, "qp-outside", "the point violates a limit by " << o.violation(ye));
  EXPECT((ye - std::get<2>(r)).norm() < 2e-3 * (1 + xe.norm()), "qp-not-closest", "got [" << ye.transpose() << "], closest [" << std::get<2>(r).transpose() << "]");
  c.event("projected");
}

FAMILY(closest_feasible_qp_impossible, 100, 2000)
{
  OptProb p(ModelType::BPMPD);
  const VarVector vs = p.createVariables({ "a", "b" }, { -1, -1 }, { 1, 1 });
  AffExpr e(-2.0 - c.rng.unif(0.2, 2));
  exprInc(e, vs[0]);
  exprInc(e, vs[1]);
  p.addLinearConstraint(exprMult(e, -1), INEQ);  // a + b >= 2 + something
  c.note(e.constant);
  EXPECT_THROW_STD(p.getClosestFeasiblePointQP({ c.rng.unif(-2, 2), 0 }), "impossible-accepted", "no point is feasible, yet one was returned");
  c.event("refused");
}
MON_MAIN
