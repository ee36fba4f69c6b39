// A small dense convex QP solver (Mehrotra predictor-corrector), used by the stand-ins for third-party solvers and as oracle:
//   minimise 1/2 x'Px + q'x   subject to   l <= A x <= u     (infinite l, u allowed; l == u is an equality)
#pragma once
#include <Eigen/Dense>
#include <cmath>
#include <limits>
#include <vector>

namespace denseqp
{
enum Status
{
  SOLVED,
  INFEASIBLE,
  FAILED
};
struct Result
{
  Status status{ FAILED };
  Eigen::VectorXd x;
  Eigen::VectorXd y;  // multipliers of the rows of A (positive: at the upper side)
  double residual{ 0 };
};

inline Result ipm(const Eigen::MatrixXd& P,
                  const Eigen::VectorXd& q,
                  const Eigen::MatrixXd& E,
                  const Eigen::VectorXd& e,
                  const Eigen::MatrixXd& G,
                  const Eigen::VectorXd& h,
                  Eigen::VectorXd& yeq,
                  Eigen::VectorXd& zin)
{
  const Eigen::Index n = q.size(), me = e.size(), mi = h.size();
  Result out;
  Eigen::VectorXd x = Eigen::VectorXd::Zero(n), y = Eigen::VectorXd::Zero(me);
  Eigen::VectorXd s = (h - G * x).cwiseMax(1.0), z = Eigen::VectorXd::Ones(mi);
  const double sq = 1 + (n ? q.cwiseAbs().maxCoeff() : 0.0), sb = 1 + std::max(me ? e.cwiseAbs().maxCoeff() : 0.0, mi ? h.cwiseAbs().maxCoeff() : 0.0);
  double best = std::numeric_limits<double>::infinity();
  for (int it = 0; it < 120; ++it)
  {
    const Eigen::VectorXd rd = P * x + q + E.transpose() * y + G.transpose() * z;
    const Eigen::VectorXd re = E * x - e;
    const Eigen::VectorXd ri = G * x + s - h;
    const double mu = mi ? s.dot(z) / static_cast<double>(mi) : 0.0;
    double res = rd.cwiseAbs().maxCoeff() / sq;
    if (me) res = std::max(res, re.cwiseAbs().maxCoeff() / sb);
    if (mi) res = std::max(res, ri.cwiseAbs().maxCoeff() / sb);
    res = std::max(res, mu / (1 + std::fabs(x.dot(P * x) * 0.5 + q.dot(x))));
    if (!(res < 1e300))
      break;
    if (res < best)
    {
      best = res;
      out.x = x;
      yeq = y;
      zin = z;
    }
    if (res < 1e-11)
      break;
    Eigen::VectorXd w = z.cwiseQuotient(s);
    Eigen::MatrixXd K = Eigen::MatrixXd::Zero(n + me, n + me);
    K.topLeftCorner(n, n) = P + G.transpose() * w.asDiagonal() * G;
    K.topLeftCorner(n, n).diagonal().array() += 1e-11;
    K.topRightCorner(n, me) = E.transpose();
    K.bottomLeftCorner(me, n) = E;
    K.bottomRightCorner(me, me).diagonal().array() -= 1e-11;
    Eigen::PartialPivLU<Eigen::MatrixXd> lu(K);
    auto step = [&](const Eigen::VectorXd& rc, Eigen::VectorXd& dx, Eigen::VectorXd& dy, Eigen::VectorXd& ds, Eigen::VectorXd& dz) {
      // s.*dz + z.*ds = -rc
      Eigen::VectorXd rhs(n + me);
      rhs.head(n) = -rd - G.transpose() * ((-rc + z.cwiseProduct(ri)).cwiseQuotient(s));
      rhs.tail(me) = -re;
      Eigen::VectorXd d = lu.solve(rhs);
      d += lu.solve(rhs - K * d);
      dx = d.head(n);
      dy = d.tail(me);
      ds = -ri - G * dx;
      dz = (-rc - z.cwiseProduct(ds)).cwiseQuotient(s);
    };
    auto maxstep = [](const Eigen::VectorXd& v, const Eigen::VectorXd& dv) {
      double a = 1;
      for (Eigen::Index i = 0; i < v.size(); ++i)
        if (dv(i) < 0)
          a = std::min(a, -v(i) / dv(i));
      return a;
    };
    Eigen::VectorXd dx, dy, ds, dz;
    step(s.cwiseProduct(z), dx, dy, ds, dz);
    double sigma = 0;
    if (mi)
    {
      const double ap = maxstep(s, ds), ad = maxstep(z, dz);
      const double mua = (s + ap * ds).dot(z + ad * dz) / static_cast<double>(mi);
      sigma = std::pow(std::max(0.0, mua / mu), 3);
      const Eigen::VectorXd rc = (s.cwiseProduct(z) + ds.cwiseProduct(dz)).array() - sigma * mu;
      step(rc, dx, dy, ds, dz);
    }
    double a = std::min(maxstep(s, ds), maxstep(z, dz));
    a = mi ? std::min(1.0, 0.99 * a) : 1.0;
    x += a * dx;
    y += a * dy;
    s += a * ds;
    z += a * dz;
    if (!x.allFinite())
      break;
  }
  out.residual = best;
  out.status = best < 1e-7 ? SOLVED : FAILED;
  return out;
}

inline Result solve(const Eigen::MatrixXd& P, const Eigen::VectorXd& q, const Eigen::MatrixXd& A, const Eigen::VectorXd& l, const Eigen::VectorXd& u, double inf = 1e19)
{
  const Eigen::Index n = q.size(), m = A.rows();
  for (Eigen::Index i = 0; i < m; ++i)
    if (l(i) > u(i) + 1e-12)
    {
      Result r;
      r.status = INFEASIBLE;
      r.x = Eigen::VectorXd::Zero(n);
      r.y = Eigen::VectorXd::Zero(m);
      return r;
    }
  std::vector<Eigen::Index> eq;
  std::vector<std::pair<Eigen::Index, int>> in;
  for (Eigen::Index i = 0; i < m; ++i)
  {
    if (l(i) > -inf && u(i) < inf && u(i) - l(i) < 1e-11)
      eq.push_back(i);
    else
    {
      if (u(i) < inf) in.emplace_back(i, 1);
      if (l(i) > -inf) in.emplace_back(i, -1);
    }
  }
  Eigen::MatrixXd E(static_cast<Eigen::Index>(eq.size()), n), G(static_cast<Eigen::Index>(in.size()), n);
  Eigen::VectorXd e(E.rows()), h(G.rows());
  for (std::size_t k = 0; k < eq.size(); ++k)
  {
    E.row(static_cast<Eigen::Index>(k)) = A.row(eq[k]);
    e(static_cast<Eigen::Index>(k)) = 0.5 * (l(eq[k]) + u(eq[k]));
  }
  for (std::size_t k = 0; k < in.size(); ++k)
  {
    G.row(static_cast<Eigen::Index>(k)) = in[k].second * A.row(in[k].first);
    h(static_cast<Eigen::Index>(k)) = in[k].second > 0 ? u(in[k].first) : -l(in[k].first);
  }
  Eigen::VectorXd ye, zi;
  Result r = ipm(P, q, E, e, G, h, ye, zi);
  r.y = Eigen::VectorXd::Zero(m);
  if (r.status != SOLVED)
  {
    // is it feasible at all?  minimise the total relaxation
    const Eigen::Index me = E.rows(), mi = G.rows(), N = n + 2 * me + mi;
    Eigen::MatrixXd P2 = Eigen::MatrixXd::Zero(N, N);
    P2.topLeftCorner(n, n).diagonal().array() = 1e-9;
    Eigen::VectorXd q2 = Eigen::VectorXd::Ones(N);
    q2.head(n).setZero();
    Eigen::MatrixXd E2 = Eigen::MatrixXd::Zero(me, N);
    E2.leftCols(n) = E;
    E2.block(0, n, me, me).setIdentity();
    E2.block(0, n + me, me, me).diagonal().array() = -1;
    Eigen::MatrixXd G2 = Eigen::MatrixXd::Zero(mi + 2 * me + mi, N);
    G2.topLeftCorner(mi, n) = G;
    G2.block(0, n + 2 * me, mi, mi).diagonal().array() = -1;
    G2.block(mi, n, 2 * me + mi, 2 * me + mi).diagonal().array() = -1;
    Eigen::VectorXd h2 = Eigen::VectorXd::Zero(G2.rows());
    h2.head(mi) = h;
    Eigen::VectorXd y2, z2;
    Result f = ipm(P2, q2, E2, e, G2, h2, y2, z2);
    if (f.x.size() == N && f.status == SOLVED && f.x.tail(N - n).sum() > 1e-6)
      r.status = INFEASIBLE;
    if (r.x.size() != n)
      r.x = Eigen::VectorXd::Zero(n);
    return r;
  }
  for (std::size_t k = 0; k < eq.size(); ++k)
    r.y(eq[k]) += ye(static_cast<Eigen::Index>(k));
  for (std::size_t k = 0; k < in.size(); ++k)
    r.y(in[k].first) += in[k].second * zi(static_cast<Eigen::Index>(k));
  return r;
}
}  // namespace denseqp
