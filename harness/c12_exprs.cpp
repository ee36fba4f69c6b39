// C12: affine and quadratic expressions of trajopt_sqp are the Taylor models they document.
#include "mon.h"
#include <Eigen/Dense>
#include <trajopt_sqp/expressions.h>
using namespace trajopt_sqp;
using Eigen::MatrixXd;
using Eigen::VectorXd;
using trajopt_ifopt::Jacobian;

namespace
{
Jacobian sparse(mon::Rng& r, const MatrixXd& d)
{
  Jacobian s(d.rows(), d.cols());
  std::vector<Eigen::Triplet<double>> t;
  for (Eigen::Index i = 0; i < d.rows(); ++i)
    for (Eigen::Index j = 0; j < d.cols(); ++j)
      if (d(i, j) != 0 || r.chance(0.1))  // explicit zeros now and then
        t.emplace_back(static_cast<int>(i), static_cast<int>(j), d(i, j));
  s.setFromTriplets(t.begin(), t.end());
  if (r.chance(0.2))
    s.uncompress();
  return s;
}
MatrixXd mat(mon::Rng& r, Eigen::Index m, Eigen::Index n, double density)
{
  MatrixXd d = MatrixXd::Zero(m, n);
  for (Eigen::Index i = 0; i < m; ++i)
  {
    if (r.chance(0.1))
      continue;  // a whole row of zeros
    for (Eigen::Index j = 0; j < n; ++j)
      if (r.chance(density))
        d(i, j) = r.chance(0.1) ? r.unif(-1e4, 1e4) : r.unif(-3, 3);
  }
  return d;
}
VectorXd vec(mon::Rng& r, Eigen::Index n)
{
  VectorXd v(n);
  for (Eigen::Index i = 0; i < n; ++i)
    v(i) = r.chance(0.1) ? 0.0 : r.unif(-3, 3);
  return v;
}
struct AffRef
{
  VectorXd f;
  MatrixXd J;
  VectorXd x0;
  VectorXd at(const VectorXd& x) const { return f + J * (x - x0); }
  /// size of the terms involved, for the tolerance
  VectorXd mag(const VectorXd& x) const { return f.cwiseAbs() + J.cwiseAbs() * (x.cwiseAbs() + x0.cwiseAbs()); }
};
}  // namespace

// the same objects are created, squared and evaluated again and again with other sizes
FAMILY(affine, 8000, 200000)
{
  mon::Rng& r = c.rng;
  AffExprs e;
  QuadExprs q;
  for (int k = r.range(1, 5); k > 0; --k)
  {
    const Eigen::Index m = r.range(1, 6), n = r.range(1, 7);
    AffRef a{ vec(r, m), mat(r, m, n, r.unif(0.1, 1)), vec(r, n) };
    c.trace << " " << m << "x" << n;
    c.note(static_cast<int>(m * 10 + n));
    c.note(a.f(0));
    const Jacobian J = sparse(r, a.J);
    e.create(a.f, J, a.x0);
    EXPECT(e.constants.size() == m && e.linear_coeffs.rows() == m && e.linear_coeffs.cols() == n, "shape", e.constants.size());
    VectorXd w(m);
    for (Eigen::Index i = 0; i < m; ++i)
      w(i) = r.chance(0.15) ? 0.0 : (r.chance(0.2) ? 1.0 : r.unif(0.01, 20));
    const bool square = r.chance(0.8);
    if (square)
      e.square(q, w);
    EXPECT(!square || (q.constants.size() == m && q.objective_linear_coeffs.size() == n && q.objective_quadratic_coeffs.rows() == n && q.objective_quadratic_coeffs.cols() == n && q.quadratic_coeffs.size() == static_cast<std::size_t>(m)), "shape",
           "of the squares");
    for (int p = 0; p < 4; ++p)
    {
      const VectorXd x = p == 0 ? a.x0 : (p == 1 ? VectorXd::Zero(n).eval() : vec(r, n));
      const VectorXd ref = a.at(x), mag = a.mag(x);
      VectorXd out = VectorXd::Constant(m, 99.0);
      e.values(out, x);
      for (Eigen::Index i = 0; i < m; ++i)
        EXPECT_NEAR_TOL(out(i), ref(i), 1e-12 * (1 + mag(i)), "affine-value", "row " << i);
      c.event("evaluated");
      if (!square)
        continue;
      VectorXd sq = VectorXd::Constant(m, 99.0);
      q.values(sq, x);
      double sum = 0, smag = 0;
      for (Eigen::Index i = 0; i < m; ++i)
      {
        EXPECT_NEAR_TOL(sq(i), w(i) * ref(i) * ref(i), 1e-11 * (1 + w(i) * mag(i) * mag(i)), "square-value", "row " << i << " of " << m << ", " << n << " variables");
        sum += w(i) * ref(i) * ref(i);
        smag += w(i) * mag(i) * mag(i);
      }
      const double obj = q.constants.sum() + q.objective_linear_coeffs.dot(x) + x.dot(MatrixXd(q.objective_quadratic_coeffs) * x);
      EXPECT_NEAR_TOL(obj, sum, 1e-11 * (1 + smag), "objective", "the aggregated objective");
      const MatrixXd H(q.objective_quadratic_coeffs);
      EXPECT((H - H.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * (1 + H.cwiseAbs().maxCoeff()), "objective", "the objective matrix is not symmetric");
      c.event("squared");
    }
  }
}

FAMILY(quadratic, 8000, 200000)
{
  mon::Rng& r = c.rng;
  QuadExprs q;
  if (r.chance(0.3))
  {
    const Eigen::Index m = r.range(0, 4), n = r.range(1, 5);
    QuadExprs z(m, n);
    const VectorXd x = vec(r, n);
    VectorXd out(m);
    z.values(out, x);
    EXPECT(out == VectorXd::Zero(m) && z.objective_linear_coeffs == VectorXd::Zero(n) && z.objective_quadratic_coeffs.nonZeros() == 0, "empty", "a new expression is not zero");
    q = z;
  }
  for (int k = r.range(1, 4); k > 0; --k)
  {
    const Eigen::Index m = r.range(1, 4), n = r.range(1, 5);
    AffRef a{ vec(r, m), mat(r, m, n, r.unif(0.1, 1)), vec(r, n) };
    std::vector<MatrixXd> H;
    std::vector<Jacobian> Hs;
    for (Eigen::Index i = 0; i < m; ++i)
    {
      MatrixXd h = MatrixXd::Zero(n, n);
      const bool none = r.chance(0.25);
      if (!none)
      {
        h = mat(r, n, n, r.unif(0.2, 1));
        h = (h + h.transpose()).eval();
      }
      H.push_back(h);
      Hs.push_back(none ? Jacobian(n, n) : sparse(r, h));
      if (none)
        c.event("without_hessian");
    }
    c.trace << " " << m << "x" << n;
    c.note(static_cast<int>(m * 10 + n));
    c.note(a.f(0));
    q.create(a.f, sparse(r, a.J), Hs, a.x0);
    for (int p = 0; p < 4; ++p)
    {
      const VectorXd x = p == 0 ? a.x0 : (p == 1 ? VectorXd::Zero(n).eval() : vec(r, n));
      VectorXd out = VectorXd::Constant(m, 99.0);
      q.values(out, x);
      const VectorXd d = x - a.x0, lin = a.at(x), mag = a.mag(x);
      for (Eigen::Index i = 0; i < m; ++i)
      {
        const double hm = H[static_cast<std::size_t>(i)].cwiseAbs().sum() * 40;
        EXPECT_NEAR_TOL(out(i), lin(i) + 0.5 * d.dot(H[static_cast<std::size_t>(i)] * d), 1e-11 * (1 + mag(i) + hm), "taylor", "row " << i << " of " << m << ", " << n << " variables, Hessian of " << Hs[static_cast<std::size_t>(i)].nonZeros() << " non-zeros");
      }
      c.event("evaluated");
    }
  }
}
MON_MAIN
