#pragma once
#include <tesseract/common/eigen_types.h>
#include <tesseract/common/utils.h>
#include <memory>
#include <stdexcept>
namespace tesseract::common
{
struct KinematicLimits
{
  Eigen::MatrixX2d joint_limits;
};
}  // namespace tesseract::common
namespace tesseract::kinematics
{
/// A copy of a joint group is a joint group which asks the one it was copied from.
class JointGroup : public std::enable_shared_from_this<JointGroup>
{
public:
  using ConstPtr = std::shared_ptr<const JointGroup>;
  JointGroup() = default;
  JointGroup(const JointGroup& o) : std::enable_shared_from_this<JointGroup>(), of_(o.of_ ? o.of_ : o.weak_from_this().lock()) {}
  JointGroup& operator=(const JointGroup& o)
  {
    of_ = o.of_ ? o.of_ : o.weak_from_this().lock();
    return *this;
  }
  virtual ~JointGroup() = default;
  virtual void calcFwdKin(common::TransformMap& transforms, const Eigen::Ref<const Eigen::VectorXd>& joint_angles) const
  {
    of().calcFwdKin(transforms, joint_angles);
  }
  common::TransformMap calcFwdKin(const Eigen::Ref<const Eigen::VectorXd>& joint_angles) const
  {
    common::TransformMap t;
    calcFwdKin(t, joint_angles);
    return t;
  }
  /// geometric Jacobian of the link origin
  virtual Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& joint_angles, const std::string& link_name) const
  {
    return of().calcJacobian(joint_angles, link_name);
  }
  /// ... of a point given in the link's frame
  virtual Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& joint_angles, const std::string& link_name,
                                       const Eigen::Vector3d& link_point) const
  {
    return of().calcJacobian(joint_angles, link_name, link_point);
  }
  /// ... seen from a base link
  virtual Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& base, const std::string& link) const
  {
    return of().calcJacobian(q, base, link);
  }
  virtual Eigen::MatrixXd calcJacobian(const Eigen::Ref<const Eigen::VectorXd>& q, const std::string& base, const std::string& link, const Eigen::Vector3d& p) const
  {
    return of().calcJacobian(q, base, link, p);
  }
  virtual std::string getBaseLinkName() const { return of().getBaseLinkName(); }
  virtual std::vector<std::string> getJointNames() const { return of().getJointNames(); }
  virtual std::vector<std::string> getActiveLinkNames() const { return of().getActiveLinkNames(); }
  virtual bool isActiveLinkName(const std::string& name) const { return of().isActiveLinkName(name); }
  virtual bool hasLinkName(const std::string& name) const { return of().hasLinkName(name); }
  virtual common::KinematicLimits getLimits() const { return of().getLimits(); }
  virtual Eigen::Index numJoints() const { return of().numJoints(); }

private:
  const JointGroup& of() const
  {
    if (!of_)
      throw std::runtime_error("joint group without kinematics");
    return *of_;
  }
  std::shared_ptr<const JointGroup> of_;
};
}  // namespace tesseract::kinematics
