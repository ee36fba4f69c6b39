#pragma once
#include <tesseract/kinematics/joint_group.h>
namespace tesseract::kinematics
{
/// Jacobian of a point of a link, by differences
inline void numericalJacobian(Eigen::Ref<Eigen::MatrixXd> jacobian, const Eigen::Isometry3d& change_base, const JointGroup& group,
                              const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& link, const Eigen::Vector3d& point)
{
  const double h = 1e-6;
  const Eigen::Isometry3d T = change_base * group.calcFwdKin(q).at(link);
  for (Eigen::Index i = 0; i < q.size(); ++i)
  {
    Eigen::VectorXd p = q;
    p(i) += h;
    const Eigen::Isometry3d U = change_base * group.calcFwdKin(p).at(link);
    jacobian.block(0, i, 3, 1) = (U * point - T * point) / h;
    const Eigen::AngleAxisd a(U.linear() * T.linear().transpose());
    jacobian.block(3, i, 3, 1) = a.axis() * a.angle() / h;
  }
}
}  // namespace tesseract::kinematics
