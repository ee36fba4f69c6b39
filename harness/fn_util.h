// Random smooth vector functions with exact derivatives.
#pragma once
#include "mon.h"
#include <Eigen/Dense>
#include <trajopt_sco/modeling_utils.hpp>
namespace scou
{
/// a smooth vector function with exact Jacobian: q(x) = A x + b + 0.5 x'H_i x + s_i sin(w_i.x)
struct Fn
{
  Eigen::MatrixXd A;
  Eigen::VectorXd b;
  std::vector<Eigen::MatrixXd> H;
  Eigen::VectorXd s;
  Eigen::MatrixXd W;
  Eigen::VectorXd val(const Eigen::VectorXd& x) const
  {
    Eigen::VectorXd y = A * x + b;
    for (Eigen::Index i = 0; i < y.size(); ++i)
      y(i) += 0.5 * x.dot(H[static_cast<std::size_t>(i)] * x) + s(i) * std::sin(W.row(i).dot(x));
    return y;
  }
  Eigen::MatrixXd jac(const Eigen::VectorXd& x) const
  {
    Eigen::MatrixXd J = A;
    for (Eigen::Index i = 0; i < J.rows(); ++i)
      J.row(i) += (H[static_cast<std::size_t>(i)] * x).transpose() + s(i) * std::cos(W.row(i).dot(x)) * W.row(i);
    return J;
  }
  Eigen::MatrixXd hess(Eigen::Index i, const Eigen::VectorXd& x) const
  {
    return H[static_cast<std::size_t>(i)] - s(i) * std::sin(W.row(i).dot(x)) * W.row(i).transpose() * W.row(i);
  }
};
inline Fn randFn(mon::Rng& r, int m, int n, int kind)
{
  Fn f;
  f.A = Eigen::MatrixXd(m, n);
  f.W = Eigen::MatrixXd::Zero(m, n);
  f.b = Eigen::VectorXd(m);
  f.s = Eigen::VectorXd::Zero(m);
  for (int i = 0; i < m; ++i)
  {
    f.b(i) = r.unif(-2, 2);
    Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, n);
    for (int j = 0; j < n; ++j)
    {
      f.A(i, j) = r.chance(0.25) ? 0.0 : r.unif(-2, 2);
      if (kind >= 1)
        for (int k = 0; k <= j; ++k)
          H(j, k) = H(k, j) = r.unif(-1, 1);
      if (kind >= 2)
        f.W(i, j) = r.unif(-1, 1);
    }
    if (kind >= 2)
      f.s(i) = r.unif(-1, 1);
    f.H.push_back(H);
  }
  return f;
}
inline sco::VectorOfVector::Ptr vfn(const Fn& f) { return sco::VectorOfVector::construct([f](const Eigen::VectorXd& x) { return f.val(x); }); }
inline sco::MatrixOfVector::Ptr mfn(const Fn& f) { return sco::MatrixOfVector::construct([f](const Eigen::VectorXd& x) { return f.jac(x); }); }

inline double pen(sco::PenaltyType t, double e)
{
  switch (t)
  {
    case sco::SQUARED: return e * e;
    case sco::ABS: return std::fabs(e);
    default: return e > 0 ? e : 0;
  }
}
}  // namespace scou
