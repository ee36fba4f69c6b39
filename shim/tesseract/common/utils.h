// Stand-in for the few functions of tesseract_common the sources use.
#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <utility>
namespace tesseract::common
{
/// as in tesseract_common: absolute, then relative comparison
inline bool almostEqualRelativeAndAbs(double a, double b, double max_diff = 1e-6, double max_rel_diff = std::numeric_limits<double>::epsilon())
{
  const double diff = std::fabs(a - b);
  if (diff <= max_diff)
    return true;
  const double largest = std::max(std::fabs(a), std::fabs(b));
  return diff <= largest * max_rel_diff;
}
inline bool almostEqualRelativeAndAbs(const Eigen::Ref<const Eigen::VectorXd>& v1, const Eigen::Ref<const Eigen::VectorXd>& v2,
                                      double max_diff = 1e-6, double max_rel_diff = std::numeric_limits<double>::epsilon())
{
  if (v1.size() != v2.size())
    return false;
  for (Eigen::Index i = 0; i < v1.size(); ++i)
    if (!almostEqualRelativeAndAbs(v1(i), v2(i), max_diff, max_rel_diff))
      return false;
  return true;
}
template <typename MapType, typename ValueType>
bool isIdenticalMap(const MapType& a, const MapType& b, const std::function<bool(const ValueType&, const ValueType&)>& eq)
{
  if (a.size() != b.size())
    return false;
  for (const auto& e : a)
  {
    auto it = b.find(e.first);
    if (it == b.end() || !eq(e.second, it->second))
      return false;
  }
  return true;
}
inline Eigen::VectorXd concat(const Eigen::VectorXd& a, const Eigen::VectorXd& b)
{
  Eigen::VectorXd out(a.size() + b.size());
  out << a, b;
  return out;
}
/// rotation vector of R, angle in [0, pi]
inline Eigen::Vector3d calcRotationalError(const Eigen::Ref<const Eigen::Matrix3d>& R)
{
  const Eigen::AngleAxisd aa{ Eigen::Matrix3d(R) };
  double angle = aa.angle();
  Eigen::Vector3d axis = aa.axis();
  if (angle < 0)
  {
    angle = -angle;
    axis = -axis;
  }
  if (angle > M_PI)
  {
    angle = 2 * M_PI - angle;
    axis = -axis;
  }
  return axis * angle;
}
/// pose of t2 seen from t1, as translation and rotation vector
inline Eigen::VectorXd calcTransformError(const Eigen::Isometry3d& t1, const Eigen::Isometry3d& t2)
{
  const Eigen::Isometry3d err = t1.inverse() * t2;
  Eigen::VectorXd r(6);
  r << err.translation(), calcRotationalError(err.rotation());
  return r;
}
/// change of the error between (target, source) and (target_perturbed, source_perturbed)
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target, const Eigen::Isometry3d& target_perturbed,
                                                      const Eigen::Isometry3d& source, const Eigen::Isometry3d& source_perturbed)
{
  const Eigen::VectorXd e0 = calcTransformError(target, source);
  const Eigen::VectorXd e1 = calcTransformError(target_perturbed, source_perturbed);
  Eigen::VectorXd d = e1 - e0;
  // the rotation vector jumps at pi: take the one near e0
  const double n = e1.tail(3).norm();
  if (n > 1e-9)
  {
    const Eigen::Vector3d other = e1.tail(3) * ((n - 2 * M_PI) / n);
    if ((other - e0.tail(3)).norm() < (e1.tail(3) - e0.tail(3)).norm())
      d.tail(3) = other - e0.tail(3);
  }
  return d;
}
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target, const Eigen::Isometry3d& source,
                                                      const Eigen::Isometry3d& source_perturbed)
{
  return calcJacobianTransformErrorDiff(target, target, source, source_perturbed);
}
/// the part of the error outside of the tolerances
inline void applyTolerances(Eigen::Ref<Eigen::VectorXd> err, const Eigen::VectorXd& lower, const Eigen::VectorXd& upper)
{
  for (Eigen::Index i = 0; i < err.size(); ++i)
    err(i) = err(i) < lower(i) ? err(i) - lower(i) : (err(i) > upper(i) ? err(i) - upper(i) : 0.0);
}
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target, const Eigen::Isometry3d& target_perturbed,
                                                      const Eigen::Isometry3d& source, const Eigen::Isometry3d& source_perturbed,
                                                      const Eigen::VectorXd& lower, const Eigen::VectorXd& upper)
{
  const Eigen::VectorXd d = calcJacobianTransformErrorDiff(target, target_perturbed, source, source_perturbed);
  if (lower.size() == 0 && upper.size() == 0)
    return d;
  Eigen::VectorXd e0 = calcTransformError(target, source);
  Eigen::VectorXd e1 = e0 + d;
  applyTolerances(e0, lower, upper);
  applyTolerances(e1, lower, upper);
  return e1 - e0;
}
inline Eigen::VectorXd calcJacobianTransformErrorDiff(const Eigen::Isometry3d& target, const Eigen::Isometry3d& source,
                                                      const Eigen::Isometry3d& source_perturbed, const Eigen::VectorXd& lower,
                                                      const Eigen::VectorXd& upper)
{
  return calcJacobianTransformErrorDiff(target, target, source, source_perturbed, lower, upper);
}
inline void jacobianChangeBase(Eigen::Ref<Eigen::MatrixXd> jacobian, const Eigen::Isometry3d& change_base)
{
  for (Eigen::Index i = 0; i < jacobian.cols(); ++i)
  {
    jacobian.col(i).head(3) = (change_base.linear() * jacobian.col(i).head(3)).eval();
    jacobian.col(i).tail(3) = (change_base.linear() * jacobian.col(i).tail(3)).eval();
  }
}
inline void jacobianChangeRefPoint(Eigen::Ref<Eigen::MatrixXd> jacobian, const Eigen::Ref<const Eigen::Vector3d>& ref_point)
{
  const Eigen::Vector3d p = ref_point;
  for (Eigen::Index i = 0; i < jacobian.cols(); ++i)
  {
    const Eigen::Vector3d w = jacobian.col(i).tail(3);
    jacobian.col(i).head(3) += w.cross(p);
  }
}
}  // namespace tesseract::common
