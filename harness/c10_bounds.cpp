// C10: bounds, distances to bounds, interpolation and numeric differentiation of trajopt_ifopt.
#include "ifopt_util.h"
#include <trajopt_ifopt/utils/ifopt_utils.h>
#include <trajopt_ifopt/utils/numeric_differentiation.h>
using namespace ifo;

namespace
{
double anyLimit(mon::Rng& r)
{
  switch (r.range(0, 9))
  {
    case 0: return INFINITY;
    case 1: return -INFINITY;
    case 2: return 1e20;
    case 3: return -1e20;
    case 4: return std::nextafter(1e20, 0.0);
    case 5: return -std::nextafter(1e20, 0.0);
    case 6: return r.chance(0.5) ? 1e30 : -1e30;
    default: return r.num();
  }
}
void judge(mon::Case& c, const Bounds& b, double lo, double hi)
{
  EXPECT(b.getLower() == lo && b.getUpper() == hi, "limits", "[" << b.getLower() << ", " << b.getUpper() << "], expected [" << lo << ", " << hi << "]");
  EXPECT(b.getType() == refType(lo, hi), "type", "type " << static_cast<int>(b.getType()) << " of [" << lo << ", " << hi << "], expected " << static_cast<int>(refType(lo, hi)));
  c.event("classified");
}
}  // namespace

FAMILY(bounds, 80000, 300000)
{
  mon::Rng& r = c.rng;
  double lo = anyLimit(r), hi = r.chance(0.3) ? lo + (r.chance(0.5) ? 1 : -1) * r.pick(std::vector<double>{ 0, 1e-7, 2e-8, 5e-9, 1e-9 }) : anyLimit(r);
  if (std::isnan(hi))
    hi = lo;
  Bounds b(lo, hi);
  judge(c, b, lo, hi);
  EXPECT(Bounds().getType() == BoundsType::kEquality && Bounds().getLower() == 0 && Bounds().getUpper() == 0, "type", "the default bound is zero");
  for (int k = r.range(1, 5); k > 0; --k)
  {
    const int op = r.range(0, 4);
    c.note(op);
    if (op == 0)
    {
      lo = anyLimit(r);
      b.setLower(lo);
    }
    else if (op == 1)
    {
      hi = anyLimit(r);
      b.setUpper(hi);
    }
    else if (op == 2)
    {
      lo = anyLimit(r);
      hi = anyLimit(r);
      b.set(lo, hi);
    }
    else
    {
      const double d = r.num();
      if (op == 3)
      {
        b += d;
        lo += d;
        hi += d;
      }
      else
      {
        b -= d;
        lo -= d;
        hi -= d;
      }
    }
    c.trace << ' ' << op << " [" << lo << ", " << hi << "]";
    judge(c, b, lo, hi);
  }
  c.note(lo);
  c.note(hi);
  // the named bounds
  judge(c, NoBound, -INFINITY, INFINITY);
  judge(c, BoundZero, 0, 0);
  judge(c, BoundGreaterZero, 0, INFINITY);
  judge(c, BoundSmallerZero, -INFINITY, 0);
}

FAMILY(distances, 80000, 300000)
{
  mon::Rng& r = c.rng;
  const int n = r.range(0, 8);
  VectorXd x(n), lo(n), hi(n);
  std::vector<Bounds> b;
  for (int i = 0; i < n; ++i)
  {
    b.push_back(randBounds(r));
    lo(i) = b.back().getLower();
    hi(i) = b.back().getUpper();
    switch (r.range(0, 5))
    {
      case 0: x(i) = std::isfinite(lo(i)) ? lo(i) : r.num(); break;
      case 1: x(i) = std::isfinite(hi(i)) ? hi(i) : r.num(); break;
      case 2: x(i) = std::nextafter(std::isfinite(lo(i)) ? lo(i) : 1.0, -INFINITY); break;
      case 3: x(i) = std::nextafter(std::isfinite(hi(i)) ? hi(i) : 1.0, INFINITY); break;
      default: x(i) = r.num();
    }
    c.note(x(i));
    c.note(static_cast<int>(b.back().getType()));
  }
  c.trace << " x " << x.transpose() << " lo " << lo.transpose() << " hi " << hi.transpose();
  VectorXd e = VectorXd::Constant(n, 77), v = VectorXd::Constant(n, 77);
  calcBoundsErrors(e, x, b);
  calcBoundsViolations(v, x, b);
  const VectorXd p = getClosestValidPoint(x, b);
  EXPECT(p.size() == n, "closest", "size");
  for (int i = 0; i < n; ++i)
  {
    const Bounds& q = b[static_cast<std::size_t>(i)];
    EXPECT(p(i) == clampRef(x(i), q), "closest", "closest point " << p(i) << " to " << x(i) << " in [" << lo(i) << ", " << hi(i) << "]");
    const double want = errRef(x(i), q);
    EXPECT(want == 0 ? e(i) == 0 : mon::close(e(i), want, 1e-12, 1e-12), "error", "error " << e(i) << " of " << x(i) << " in [" << lo(i) << ", " << hi(i) << "], expected " << want);
    EXPECT(want == 0 ? v(i) == 0 : mon::close(v(i), std::abs(want), 1e-12, 1e-12), "violation", "violation " << v(i) << ", expected " << std::abs(want));
  }
  // written into a part of a larger vector
  VectorXd big = VectorXd::Constant(n + 2, 5);
  calcBoundsErrors(big.segment(1, n), x, b);
  EXPECT(big(0) == 5 && big(n + 1) == 5 && big.segment(1, n) == e, "error", "writes beyond its output");
  // round trip of limits
  const auto b1 = toBounds(lo, hi);
  Eigen::MatrixX2d lim(n, 2);
  lim.col(0) = lo;
  lim.col(1) = hi;
  const auto b2 = toBounds(lim);
  EXPECT(b1.size() == static_cast<std::size_t>(n) && b2.size() == static_cast<std::size_t>(n), "limits", "size");
  for (int i = 0; i < n; ++i)
  {
    judge(c, b1[static_cast<std::size_t>(i)], lo(i), hi(i));
    judge(c, b2[static_cast<std::size_t>(i)], lo(i), hi(i));
  }
  c.event("measured", n);
}

FAMILY(interpolation, 20000, 100000)
{
  mon::Rng& r = c.rng;
  const int n = r.range(0, 6), steps = r.chance(0.2) ? 2 : r.range(2, 200);
  const VectorXd a = randVec(r, n, 5), b = r.chance(0.1) ? a : randVec(r, n, 5);
  const auto t = interpolate(a, b, steps);
  c.note(n);
  c.note(steps);
  if (n > 0)
    c.note(a(0));
  EXPECT(t.size() == static_cast<std::size_t>(steps), "steps", t.size() << " of " << steps);
  if (n == 0)
    return;
  const double tol = 1e-12 * (1 + a.cwiseAbs().maxCoeff() + b.cwiseAbs().maxCoeff()) * steps;
  EXPECT(t.front() == a, "ends", "starts at " << t.front().transpose());
  for (int i = 0; i < steps; ++i)
    for (int k = 0; k < n; ++k)
      EXPECT_NEAR_TOL(t[static_cast<std::size_t>(i)](k), a(k) + (b(k) - a(k)) * i / (steps - 1.0), tol, "steps", "step " << i << " of " << steps);
  c.event("interpolated");
}

// numeric derivatives agree with the exact ones and leave everything as it was
FAMILY(derivatives, 20000, 60000)
{
  mon::Rng& r = c.rng;
  VarSet s = randVars(c, r.range(1, 3), r.range(1, 3), false);
  const int n = s.nv->getRows();
  const bool linear = r.chance(0.4);
  const double eps = r.pick(std::vector<double>{ 1e-8, 1e-7, 1e-6, 1e-5 });
  const double tol = (linear ? 1e-5 + 1e-10 / eps : 30 * n * eps + 2e-6) + 1e-13 / eps;
  auto set = std::make_shared<RandSet>(r, "a", r.range(1, 4), n, linear);
  auto set2 = std::make_shared<RandSet>(r, "b", r.range(1, 3), n, linear);
  c.trace << " n " << n << " eps " << eps << " linear " << linear;
  c.note(n);
  c.note(s.x(0));
  c.note(eps);
  const VectorXd x = randVec(r, n, 2);
  auto compare = [&](const MatrixXd& num, const MatrixXd& exact, const char* what) {
    EXPECT(num.rows() == exact.rows() && num.cols() == exact.cols(), "shape", what << " is " << num.rows() << "x" << num.cols());
    for (Eigen::Index i = 0; i < exact.rows(); ++i)
      for (Eigen::Index j = 0; j < exact.cols(); ++j)
        EXPECT_NEAR_TOL(num(i, j), exact(i, j), tol * (1 + std::abs(exact(i, j))), "derivative", what << " (" << i << "," << j << ")");
    c.event("differentiated");
  };
  // of a function
  {
    VectorXd seen = x;
    compare(dense(calcForwardNumJac([&](const Eigen::Ref<const VectorXd>& v) { return set->ref(v); }, x, eps)), set->refJac(x), "calcForwardNumJac");
    EXPECT(seen == x, "restored", "argument");
  }
  // of a constraint set at the current variables
  {
    auto nv2 = s.nv;
    set->linkWithVariables(nv2);
    nv2->setVariables(x);
    compare(dense(calcNumericalConstraintGradient(*nv2, *set, eps)), set->refJac(x), "constraint set gradient");
    EXPECT(nv2->getValues() == x, "restored", "the variables after calcNumericalConstraintGradient are " << nv2->getValues().transpose());
    EXPECT(set->updates > 0 && set->updated_at == x, "update", "the set was left updated at " << set->updated_at.transpose());
  }
  // of a problem, at any point
  {
    Problem nlp(s.nv);
    const int kind = r.range(0, 3);
    if (kind & 1)
    {
      nlp.addConstraintSet(set);
      nlp.addConstraintSet(set2);
    }
    struct C : CostTerm
    {
      std::shared_ptr<RandSet> f;
      C(std::shared_ptr<RandSet> f) : CostTerm("c"), f(std::move(f)) { non_zeros_ = f ? 0 : 0; }
      double getCost() const override { return f->ref(variables_->getValues()).sum(); }
      int update() override { return 1; }
      VectorXd getCoefficients() const override { return VectorXd::Ones(1); }
      Jacobian getJacobian() const override
      {
        const MatrixXd g = f->refJac(variables_->getValues()).colwise().sum();
        return g.sparseView();
      }
    };
    if (kind & 2)
    {
      nlp.addCostSet(std::make_shared<C>(set));
      if (r.chance(0.5))
        nlp.addCostSet(std::make_shared<C>(set2));
    }
    const bool two = nlp.getCosts().getComponents().size() == 2;
    const VectorXd cur = randVec(r, n, 2);
    nlp.setVariables(cur.data());
    VectorXd g = VectorXd::Zero(n);
    if (kind & 2)
    {
      g = set->refJac(x).colwise().sum().transpose();
      if (two)
        g += set2->refJac(x).colwise().sum().transpose();
    }
    compare(calcNumericalCostGradient(x.data(), nlp, eps), g, "cost gradient");
    EXPECT(nlp.getVariableValues() == cur, "restored", "the variables after calcNumericalCostGradient");
    MatrixXd J(0, n);
    if (kind & 1)
    {
      J.resize(set->getRows() + set2->getRows(), n);
      J << set->refJac(x), set2->refJac(x);
    }
    compare(dense(calcNumericalConstraintGradient(x.data(), nlp, eps)), J, "constraint gradient");
    EXPECT(nlp.getVariableValues() == cur, "restored", "the variables after calcNumericalConstraintGradient");
    // the problem's own
    const VectorXd exact = nlp.evaluateCostFunctionGradient();
    const VectorXd num = nlp.evaluateCostFunctionGradient(true, eps);
    EXPECT(nlp.getVariableValues() == cur, "restored", "the variables after evaluateCostFunctionGradient");
    VectorXd gc = VectorXd::Zero(n);
    if (kind & 2)
    {
      gc = set->refJac(cur).colwise().sum().transpose();
      if (two)
        gc += set2->refJac(cur).colwise().sum().transpose();
    }
    compare(exact, gc, "problem gradient");
    compare(num, gc, "problem gradient by differences");
  }
}

MON_MAIN
