// Pose errors and differences for the Cartesian harnesses.
#pragma once
#include "robot.h"
namespace pu
{
using Eigen::Isometry3d;
using Eigen::MatrixXd;
using Eigen::Vector3d;
using Eigen::VectorXd;
/// rotation vector of a rotation, by the logarithm of its quaternion
inline Vector3d logR(const Eigen::Matrix3d& R)
{
  Eigen::Quaterniond q(R);
  if (q.w() < 0)
    q.coeffs() = -q.coeffs();
  const double n = q.vec().norm();
  return n < 1e-12 ? Vector3d(2 * q.vec()) : Vector3d(q.vec() * (2 * std::atan2(n, q.w()) / n));
}
/// pose of b seen from a: translation, then rotation vector
inline VectorXd poseError(const Isometry3d& a, const Isometry3d& b)
{
  VectorXd e(6);
  e.head(3) = a.linear().transpose() * (b.translation() - a.translation());
  e.tail(3) = logR(a.linear().transpose() * b.linear());
  return e;
}
inline double angle(const Isometry3d& a, const Isometry3d& b) { return logR(a.linear().transpose() * b.linear()).norm(); }
struct Diff
{
  MatrixXd forward, backward;
};
/// one-sided differences of a function
inline Diff differences(const std::function<VectorXd(const VectorXd&)>& f, const VectorXd& x, double h)
{
  const VectorXd f0 = f(x);
  Diff d;
  d.forward.resize(f0.size(), x.size());
  d.backward.resize(f0.size(), x.size());
  for (Eigen::Index i = 0; i < x.size(); ++i)
  {
    VectorXd y = x;
    y(i) = x(i) + h;
    d.forward.col(i) = (f(y) - f0) / h;
    y(i) = x(i) - h;
    d.backward.col(i) = (f0 - f(y)) / h;
  }
  return d;
}
/// compares a Jacobian with the differences of its function, except where these disagree (a kink); what is wrong, or ""
inline std::string compare(const MatrixXd& J, const Diff& d, double tol, int& compared)
{
  std::ostringstream o;
  if (J.rows() != d.forward.rows() || J.cols() != d.forward.cols())
  {
    o << "a Jacobian of " << J.rows() << " by " << J.cols() << " for " << d.forward.rows() << " by " << d.forward.cols();
    return o.str();
  }
  for (Eigen::Index i = 0; i < J.rows(); ++i)
    for (Eigen::Index j = 0; j < J.cols(); ++j)
    {
      const double a = d.forward(i, j), b = d.backward(i, j), s = tol * (1 + std::max(std::fabs(a), std::fabs(b)));
      if (!(std::fabs(a - b) < s))
        continue;
      ++compared;
      if (!(std::fabs(J(i, j) - 0.5 * (a + b)) < 4 * s))
      {
        o.precision(10);
        o << "derivative (" << i << "," << j << ") " << J(i, j) << ", differences " << a << " and " << b;
        return o.str();
      }
    }
  return "";
}
/// a robot and two of its links, at least one of which moves
struct Pair
{
  std::shared_ptr<cw::Robot> robot;
  std::string source, target;
  bool source_active, target_active;
  Isometry3d source_offset, target_offset;
};
inline Pair randPair(mon::Rng& r)
{
  Pair p;
  const int dof = r.range(1, 5);
  p.robot = cw::randRobot(r, dof, r.chance(0.1));
  p.robot->logging = false;
  auto any = [&] { return p.robot->links[static_cast<std::size_t>(r.range(0, dof))]; };
  do
  {
    p.source = r.chance(0.3) ? p.robot->links.front() : any();
    p.target = r.chance(0.4) ? p.robot->links.front() : any();
  } while (p.source == p.robot->links.front() && p.target == p.robot->links.front());
  p.source_active = p.source != p.robot->links.front();
  p.target_active = p.target != p.robot->links.front();
  p.source_offset = r.chance(0.2) ? Isometry3d::Identity() : cw::randPose(r, 0.4);
  p.target_offset = r.chance(0.2) ? Isometry3d::Identity() : cw::randPose(r, 0.8);
  return p;
}
inline Isometry3d poseOf(const cw::Robot& rb, const VectorXd& q, const std::string& link) { return rb.fk(q)[rb.index(link)]; }
}  // namespace pu
