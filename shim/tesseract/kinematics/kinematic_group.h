#pragma once
#include <tesseract/kinematics/joint_group.h>
namespace tesseract::kinematics
{
struct KinGroupIKInput
{
  KinGroupIKInput(const Eigen::Isometry3d& p, std::string wf, std::string tl) : pose(p), working_frame(std::move(wf)), tip_link_name(std::move(tl)) {}
  Eigen::Isometry3d pose;
  std::string working_frame;
  std::string tip_link_name;
};
using KinGroupIKInputs = std::vector<KinGroupIKInput>;
using IKSolutions = std::vector<Eigen::VectorXd>;
class KinematicGroup : public JointGroup
{
public:
  virtual IKSolutions calcInvKin(const KinGroupIKInputs& tip_link_poses, const Eigen::Ref<const Eigen::VectorXd>& seed) const = 0;
};
}  // namespace tesseract::kinematics
