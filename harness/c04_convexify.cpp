// C04: convexification of costs and constraints, and the bookkeeping of the terms they add to a model.
// Oracle: a reference Model records what is added; the objective is minimised over the auxiliary variables at fixed
// problem variables by vertex enumeration and compared with the penalty of the linearisation computed here.
#include "aux_min.h"
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/modeling_utils.hpp>
#include "fn_util.h"
using namespace sco;
using namespace scou;

namespace
{
/// problem variables: some unused ones in front and between, in scrambled order
struct Setup
{
  RefModel m;
  VarVector all, vars;
  DblVec x;
  Eigen::VectorXd xs;
};
void setup(mon::Case& c, Setup& s, int n)
{
  const int total = n + c.rng.range(0, 4);
  for (int i = 0; i < total; ++i)
    s.all.push_back(s.m.addVar("x" + std::to_string(i)));
  VarVector perm = s.all;
  c.rng.shuffle(perm);
  s.vars.assign(perm.begin(), perm.begin() + n);
  s.x.resize(static_cast<std::size_t>(total));
  for (auto& v : s.x)
    v = c.rng.unif(-1.5, 1.5);
  s.xs.resize(n);
  for (int i = 0; i < n; ++i)
    s.xs(i) = s.x[s.vars[static_cast<std::size_t>(i)].var_rep->index];
}
/// a large error with a small weight is worth as much as any other
void rescale(mon::Rng& r, Fn& f, Eigen::VectorXd& w, int power)
{
  for (Eigen::Index i = 0; i < w.size(); ++i)
    if (r.chance(0.3))
    {
      const double k = std::pow(10.0, r.unif(0, 3.5));
      f.A.row(i) *= k;
      f.b(i) *= k;
      f.H[static_cast<std::size_t>(i)] *= k;
      f.s(i) *= k;
      w(i) /= std::pow(k, power);
    }
}
Eigen::VectorXd sub(const Setup& s, const DblVec& x)
{
  Eigen::VectorXd v(static_cast<Eigen::Index>(s.vars.size()));
  for (std::size_t i = 0; i < s.vars.size(); ++i)
    v(static_cast<Eigen::Index>(i)) = x[s.vars[i].var_rep->index];
  return v;
}
}  // namespace

FAMILY(cost_from_errors, 5000, 150000)
{
  const int n = c.rng.range(1, 6), m = c.rng.range(1, 4);
  Setup s;
  setup(c, s, n);
  Fn f = randFn(c.rng, m, n, c.rng.range(0, 2));
  const auto pt = static_cast<PenaltyType>(c.rng.range(0, 2));
  const bool analytic = c.rng.chance(0.5);
  Eigen::VectorXd w(0);
  if (c.rng.chance(0.7))
  {
    w.resize(m);
    for (int i = 0; i < m; ++i)
      w(i) = c.rng.chance(0.2) ? 0.0 : c.rng.unif(0.1, 4);
    rescale(c.rng, f, w, pt == SQUARED ? 2 : 1);
  }
  c.trace << "n=" << n << " m=" << m << " pen=" << pt << " analytic=" << analytic << " w=" << w.transpose() << " x=" << s.xs.transpose();
  c.note(n); c.note(m); c.note(int(pt)); c.note(analytic); c.note(w.size()); c.note(s.xs(0));
  std::shared_ptr<Cost> cost;
  if (analytic)
    cost = std::make_shared<CostFromErrFunc>(vfn(f), mfn(f), s.vars, w, pt, "c");
  else
    cost = std::make_shared<CostFromErrFunc>(vfn(f), s.vars, w, pt, "c");
  EXPECT(cost->name() == "c" && cost->getVars().size() == s.vars.size(), "identity", "name or variables lost");
  auto weight = [&](int i) { return w.size() > 0 ? w(i) : 1.0; };
  auto exact = [&](const Eigen::VectorXd& x) {
    double t = 0;
    const Eigen::VectorXd e = f.val(x);
    for (int i = 0; i < m; ++i)
      t += weight(i) * pen(pt, e(i));
    return t;
  };
  const double tolx = analytic ? 1e-6 : 2e-4;
  EXPECT_NEAR_TOL(cost->value(s.x), exact(s.xs), 1e-9, "exact-value", "cost value");
  const long v0 = s.m.liveVars(), c0 = s.m.liveCnts();
  const std::size_t np = s.m.vars.size();
  {
    ConvexObjective::Ptr o = cost->convex(s.x, &s.m);
    EXPECT(o != nullptr && o->inModel(), "convex-null", "no convex objective");
    o->addConstraintsToModel();
    const Eigen::VectorXd y0 = f.val(s.xs);
    const Eigen::MatrixXd J = f.jac(s.xs);
    for (int t = 0; t < 4; ++t)
    {
      DblVec x = s.x;
      if (t > 0)
        for (auto& v : x)
          v += c.rng.unif(-1, 1);
      const Eigen::VectorXd d = sub(s, x) - s.xs;
      double want = 0;
      for (int i = 0; i < m; ++i)
        want += weight(i) * pen(pt, y0(i) + J.row(i).dot(d));
      const double got = minOverAux(c, s.m, *o, x, np);
      EXPECT(!std::isnan(got), "convex-infeasible", "no value of the auxiliary variables is feasible");
      EXPECT_NEAR_TOL(got, want, tolx, t == 0 ? "tangent-value" : "tangent-model", "convex model, penalty " << int(pt) << " analytic " << analytic);
      if (t == 0)
        EXPECT_NEAR_TOL(got, exact(s.xs), tolx, "value-at-point", "convex model at the point of linearisation");
      c.event("model_points");
    }
    if (c.rng.chance(0.5))
    {
      o->removeFromModel();
      EXPECT(!o->inModel(), "still-in-model", "removeFromModel left the objective in the model");
      c.event("explicit_removal");
    }
  }
  EXPECT(s.m.misuse.empty(), "misuse", s.m.misuse);
  EXPECT(s.m.liveVars() == v0 && s.m.liveCnts() == c0,
         "leak",
         "model had " << v0 << " variables and " << c0 << " constraints, has " << s.m.liveVars() << " and " << s.m.liveCnts());
}

FAMILY(cost_from_function, 4000, 120000)
{
  const int n = c.rng.range(1, 5);
  Setup s;
  setup(c, s, n);
  const Fn f = randFn(c.rng, 1, n, c.rng.range(0, 2));
  const bool full = c.rng.chance(0.5);
  auto sf = ScalarOfVector::construct([f](const Eigen::VectorXd& x) { return f.val(x)(0); });
  CostFromFunc cost(sf, s.vars, "c", full);
  c.trace << "n=" << n << " full=" << full << " x=" << s.xs.transpose();
  c.note(n); c.note(full); c.note(s.xs(0));
  EXPECT_NEAR_TOL(cost.value(s.x), f.val(s.xs)(0), 1e-9, "exact-value", "cost value");
  const long v0 = s.m.liveVars(), c0 = s.m.liveCnts();
  {
    auto o = cost.convex(s.x, &s.m);
    o->addConstraintsToModel();
    const Poly p = toPoly(o->quad_, static_cast<int>(s.m.vars.size()));
    // convex
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(p.Q);
    EXPECT(es.eigenvalues().minCoeff() >= -1e-4, "not-convex", "smallest eigenvalue " << es.eigenvalues().minCoeff());
    // value and gradient at the point
    Eigen::VectorXd xv = Eigen::Map<Eigen::VectorXd>(s.x.data(), static_cast<Eigen::Index>(s.x.size()));
    EXPECT_NEAR_TOL(p.value(xv), f.val(s.xs)(0), 1e-4, "value-at-point", "quadratic model at its point");
    const Eigen::VectorXd g = p.g + 2 * p.Q * xv;
    const Eigen::MatrixXd J = f.jac(s.xs);
    for (Eigen::Index i = 0; i < g.size(); ++i)
    {
      double want = 0;
      for (std::size_t k = 0; k < s.vars.size(); ++k)
        if (static_cast<Eigen::Index>(s.vars[k].var_rep->index) == i)
          want = J(0, static_cast<Eigen::Index>(k));
      EXPECT_NEAR_TOL(g(i), want, 1e-3, "gradient-at-point", "gradient component " << i);
    }
    // curvature: the diagonal (or the full Hessian) with the negative part removed
    const Eigen::MatrixXd H = f.hess(0, s.xs);
    Eigen::MatrixXd want;
    if (!full)
      want = H.diagonal().cwiseMax(0.0).asDiagonal();
    else
    {
      Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> eh(H);
      want = eh.eigenvectors() * eh.eigenvalues().cwiseMax(0.0).asDiagonal() * eh.eigenvectors().transpose();
    }
    for (std::size_t a = 0; a < s.vars.size(); ++a)
      for (std::size_t b = 0; b < s.vars.size(); ++b)
      {
        const double got = 2 * p.Q(static_cast<Eigen::Index>(s.vars[a].var_rep->index), static_cast<Eigen::Index>(s.vars[b].var_rep->index));
        EXPECT_NEAR_TOL(got, want(static_cast<Eigen::Index>(a), static_cast<Eigen::Index>(b)), 2e-3, full ? "curvature-full" : "curvature-diagonal", "curvature " << a << "," << b);
      }
    c.event("model_points");
  }
  EXPECT(s.m.misuse.empty() && s.m.liveVars() == v0 && s.m.liveCnts() == c0, "leak", "model items were left behind " << s.m.misuse);
}

FAMILY(constraint_from_errors, 5000, 150000)
{
  const int n = c.rng.range(1, 6), m = c.rng.range(1, 4);
  Setup s;
  setup(c, s, n);
  Fn f = randFn(c.rng, m, n, c.rng.range(0, 2));
  const ConstraintType ct = c.rng.chance(0.5) ? EQ : INEQ;
  const bool analytic = c.rng.chance(0.5);
  Eigen::VectorXd w(0);
  if (c.rng.chance(0.7))
  {
    w.resize(m);
    for (int i = 0; i < m; ++i)
      w(i) = c.rng.chance(0.2) ? 0.0 : c.rng.unif(0.1, 4);
    rescale(c.rng, f, w, 1);
  }
  c.trace << "n=" << n << " m=" << m << " type=" << int(ct) << " analytic=" << analytic << " w=" << w.transpose() << " x=" << s.xs.transpose();
  c.note(n); c.note(m); c.note(int(ct)); c.note(analytic); c.note(w.size()); c.note(s.xs(0));
  Constraint::Ptr k;
  if (analytic)
    k = std::make_shared<ConstraintFromErrFunc>(vfn(f), mfn(f), s.vars, w, ct, "k");
  else
    k = std::make_shared<ConstraintFromErrFunc>(vfn(f), s.vars, w, ct, "k");
  EXPECT(k->type() == ct && k->name() == "k", "identity", "type or name lost");
  auto weight = [&](int i) { return w.size() > 0 ? w(i) : 1.0; };
  const Eigen::VectorXd y0 = f.val(s.xs);
  const DblVec val = k->value(s.x), viol = k->violations(s.x);
  EXPECT(val.size() == static_cast<std::size_t>(m) && viol.size() == val.size(), "size", "value of size " << val.size());
  double sum = 0;
  for (int i = 0; i < m; ++i)
  {
    const double e = weight(i) * y0(i);
    EXPECT_NEAR_TOL(val[static_cast<std::size_t>(i)], e, 1e-9, "exact-value", "row " << i);
    const double vv = ct == EQ ? std::fabs(e) : std::max(0.0, e);
    EXPECT_NEAR_TOL(viol[static_cast<std::size_t>(i)], vv, 1e-9, "exact-violation", "row " << i << " type " << int(ct));
    sum += vv;
  }
  EXPECT_NEAR_TOL(k->violation(s.x), sum, 1e-9, "exact-violation-sum", "violation");
  const double tolx = analytic ? 1e-6 : 2e-4;
  const long v0 = s.m.liveVars(), c0 = s.m.liveCnts();
  {
    ConvexConstraints::Ptr cc = k->convex(s.x, &s.m);
    EXPECT(cc != nullptr && cc->inModel(), "convex-null", "no convex constraints");
    cc->addConstraintsToModel();
    const Eigen::MatrixXd J = f.jac(s.xs);
    // the model's constraint set is exactly the linearised rows with non-zero weight
    std::vector<int> live;
    for (int i = 0; i < m; ++i)
      if (weight(i) != 0.0)
        live.push_back(i);
    EXPECT(s.m.liveCnts() - c0 == static_cast<long>(live.size()), "constraint-count", s.m.liveCnts() - c0 << " rows for " << live.size());
    EXPECT((ct == EQ ? cc->eqs_ : cc->ineqs_).size() == live.size() && (ct == EQ ? cc->ineqs_ : cc->eqs_).empty(), "constraint-kind", "rows of the wrong kind");
    for (int t = 0; t < 3; ++t)
    {
      DblVec x = s.x;
      if (t > 0)
        for (auto& v : x)
          v += c.rng.unif(-1, 1);
      const Eigen::VectorXd d = sub(s, x) - s.xs;
      // sorted multiset of values, whatever the order of the rows
      std::vector<double> got, want;
      for (const auto& r : s.m.cnts)
        if (!r.removed)
        {
          EXPECT(r.type == ct, "constraint-type", "row type " << int(r.type));
          got.push_back(r.expr.value(x));
        }
      double vs = 0;
      for (int i : live)
      {
        const double e = weight(i) * (y0(i) + J.row(i).dot(d));
        want.push_back(e);
        vs += ct == EQ ? std::fabs(e) : std::max(0.0, e);
      }
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
      for (std::size_t i = 0; i < want.size(); ++i)
        EXPECT_NEAR_TOL(got[i], want[i], tolx, "tangent-model", "linearised row");
      EXPECT_NEAR_TOL(cc->violation(x), vs, 4 * tolx, "convex-violation", "violation of the convex rows, type " << int(ct));
      const DblVec each = cc->violations(x);
      double es = 0;
      for (double e : each)
      {
        EXPECT(e >= 0, "convex-violation-negative", "negative violation " << e);
        es += e;
      }
      EXPECT_NEAR_TOL(es, cc->violation(x), 1e-9, "convex-violation-sum", "sum");
      c.event("model_points");
    }
    if (c.rng.chance(0.5))
    {
      cc->removeFromModel();
      EXPECT(!cc->inModel(), "still-in-model", "removeFromModel left the constraints in the model");
      c.event("explicit_removal");
    }
  }
  EXPECT(s.m.misuse.empty() && s.m.liveVars() == v0 && s.m.liveCnts() == c0, "leak", "model items were left behind " << s.m.misuse);
}

// objectives composed by hand from the convex building blocks
FAMILY(objective_blocks, 5000, 150000)
{
  const int n = c.rng.range(1, 5);
  Setup s;
  setup(c, s, n);
  const std::size_t np = s.m.vars.size();
  const long v0 = s.m.liveVars(), c0 = s.m.liveCnts();
  std::vector<std::function<double(const DblVec&)>> terms;
  {
    ConvexObjective o(&s.m);
    const int k = c.rng.range(1, 5);
    auto affs = [&]() {
      AffExprVector ev;
      for (int i = c.rng.range(1, 2); i > 0; --i)
        ev.push_back(randAff(c.rng, s.all, 4));
      return ev;
    };
    for (int i = 0; i < k; ++i)
    {
      const int op = c.rng.range(0, 7);
      c.trace << ' ' << op;
      c.note(op);
      const AffExpr a = randAff(c.rng, s.all, 4);
      const double w = c.rng.unif(0.1, 3);
      const AffExprVector ev = affs();
      switch (op)
      {
        case 0: o.addAffExpr(a); terms.emplace_back([=](const DblVec& x) { return a.value(x); }); break;
        case 1:
        {
          const QuadExpr q = randQuad(c.rng, s.all, 4);
          o.addQuadExpr(q);
          terms.emplace_back([=](const DblVec& x) { return q.value(x); });
          break;
        }
        case 2: o.addHinge(a, w); terms.emplace_back([=](const DblVec& x) { return w * std::max(0.0, a.value(x)); }); break;
        case 3: o.addAbs(a, w); terms.emplace_back([=](const DblVec& x) { return w * std::fabs(a.value(x)); }); break;
        case 4: o.addHinges(ev); terms.emplace_back([=](const DblVec& x) { double t = 0; for (auto& e : ev) t += std::max(0.0, e.value(x)); return t; }); break;
        case 5: o.addL1Norm(ev); terms.emplace_back([=](const DblVec& x) { double t = 0; for (auto& e : ev) t += std::fabs(e.value(x)); return t; }); break;
        case 6: o.addL2Norm(ev); terms.emplace_back([=](const DblVec& x) { double t = 0; for (auto& e : ev) t += e.value(x) * e.value(x); return t; }); break;
        default: o.addMax(ev); terms.emplace_back([=](const DblVec& x) { double t = -INFINITY; for (auto& e : ev) t = std::max(t, e.value(x)); return t; }); break;
      }
    }
    o.addConstraintsToModel();
    for (int t = 0; t < 3; ++t)
    {
      DblVec x = s.x;
      for (auto& v : x)
        v += c.rng.unif(-1, 1);
      double want = 0, scale = 1;
      for (auto& f : terms)
      {
        want += f(x);
        scale += std::fabs(f(x));
      }
      const double got = minOverAux(c, s.m, o, x, np);
      EXPECT(!std::isnan(got), "convex-infeasible", "no value of the auxiliary variables is feasible");
      EXPECT(std::fabs(got - want) <= 1e-6 * scale, "block-value", "objective " << got << ", oracle " << want << " (operations" << c.trace.str() << ")");
      c.event("model_points");
    }
  }
  EXPECT(s.m.misuse.empty(), "misuse", s.m.misuse);
  EXPECT(s.m.liveVars() == v0 && s.m.liveCnts() == c0, "leak", "operations" << c.trace.str() << " left " << s.m.liveVars() - v0 << " variables and " << s.m.liveCnts() - c0 << " constraints in the model");
}

FAMILY(numeric_derivatives, 4000, 100000)
{
  const int n = c.rng.range(1, 6), m = c.rng.range(1, 4);
  const Fn f = randFn(c.rng, m, n, c.rng.range(0, 2));
  Eigen::VectorXd x(n);
  for (int i = 0; i < n; ++i)
    x(i) = c.rng.unif(-1.5, 1.5);
  c.note(n); c.note(m); c.note(x(0));
  c.trace << "n=" << n << " m=" << m;
  const double eps = 1e-5;
  long calls = 0;
  const Eigen::VectorXd x0 = x;
  auto vf = VectorOfVector::construct([&](const Eigen::VectorXd& y) { ++calls; return f.val(y); });
  auto sf = ScalarOfVector::construct([&](const Eigen::VectorXd& y) { ++calls; return f.val(y)(0); });
  const Eigen::MatrixXd J = f.jac(x);
  const Eigen::MatrixXd H = f.hess(0, x);
  const Eigen::MatrixXd j1 = calcForwardNumJac(*vf, x, eps), j2 = forwardNumJac(vf, eps)->call(x);
  EXPECT(j1.rows() == m && j1.cols() == n && (j1 - J).cwiseAbs().maxCoeff() < 1e-3 && (j2 - J).cwiseAbs().maxCoeff() < 1e-3, "jacobian", "numeric\n" << j1 << "\nexact\n" << J);
  const Eigen::VectorXd g1 = calcForwardNumGrad(*sf, x, eps), g2 = forwardNumGrad(sf, eps)->call(x);
  EXPECT((g1 - J.row(0).transpose()).cwiseAbs().maxCoeff() < 1e-3 && (g2 - g1).cwiseAbs().maxCoeff() < 1e-9, "gradient", "numeric " << g1.transpose() << " exact " << J.row(0));
  double y = 0;
  Eigen::VectorXd g, h;
  calcGradAndDiagHess(*sf, x, 1e-4, y, g, h);
  EXPECT_NEAR_TOL(y, f.val(x)(0), 1e-12, "value", "value");
  EXPECT((g - J.row(0).transpose()).cwiseAbs().maxCoeff() < 1e-4, "central-gradient", "numeric " << g.transpose() << " exact " << J.row(0));
  EXPECT((h - H.diagonal()).cwiseAbs().maxCoeff() < 1e-3, "diagonal-hessian", "numeric " << h.transpose() << " exact " << H.diagonal().transpose());
  Eigen::MatrixXd hh;
  calcGradHess(sf, x, 1e-4, y, g, hh);
  EXPECT((hh - H).cwiseAbs().maxCoeff() < 5e-3, "hessian", "numeric\n" << hh << "\nexact\n" << H);
  EXPECT((hh - hh.transpose()).cwiseAbs().maxCoeff() < 5e-3, "hessian-symmetry", "the Hessian is not symmetric");
  EXPECT(x == x0, "argument-changed", "the evaluation point changed");
  c.event("derivatives");
  // affFromValGrad is the tangent plane
  Setup s;
  setup(c, s, n);
  const AffExpr a = affFromValGrad(f.val(s.xs)(0), s.xs, f.jac(s.xs).row(0), s.vars);
  for (int t = 0; t < 2; ++t)
  {
    DblVec xx = s.x;
    for (auto& v : xx)
      v += c.rng.unif(-1, 1);
    EXPECT_NEAR_TOL(a.value(xx), f.val(s.xs)(0) + f.jac(s.xs).row(0).dot(sub(s, xx) - s.xs), 2e-6, "tangent-plane", "affFromValGrad");
  }
  EXPECT(getVec(s.x, s.vars) == s.xs, "getVec", "getVec picks other entries");
  const DblVec g1v = getVec1<DblVec>(s.x, s.vars);
  DblVec back(s.x.size(), -7.5);
  setVec(back, s.vars, s.xs);
  for (std::size_t i = 0; i < back.size(); ++i)
  {
    double want = -7.5;
    for (std::size_t k = 0; k < s.vars.size(); ++k)
      if (s.vars[k].var_rep->index == i)
        want = s.xs(static_cast<Eigen::Index>(k));
    EXPECT(back[i] == want, "setVec", "entry " << i << " is " << back[i] << ", not " << want);
  }
  const DblVec dv = getDblVec(s.x, s.vars);
  EXPECT(g1v == dv, "getVec1", "getVec1 picks other entries");
  for (int i = 0; i < n; ++i)
    EXPECT(dv[static_cast<std::size_t>(i)] == s.xs(i), "getDblVec", "getDblVec picks other entries");
}
MON_MAIN
