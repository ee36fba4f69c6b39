#pragma once
#include <tesseract/collision/continuous_contact_manager.h>
#include <tesseract/collision/discrete_contact_manager.h>
#include <tesseract/kinematics/joint_group.h>
#include <tesseract/scene_graph/scene_state.h>
#include <tesseract/state_solver/state_solver.h>
namespace tesseract::environment
{
class Environment
{
public:
  using Ptr = std::shared_ptr<Environment>;
  using ConstPtr = std::shared_ptr<const Environment>;
  virtual ~Environment() = default;
  virtual std::vector<std::string> getActiveLinkNames() const = 0;
  virtual void getLinkTransforms(common::TransformMap& transforms, const std::vector<std::string>& joint_names,
                                 const Eigen::Ref<const Eigen::VectorXd>& joint_values) const = 0;
  virtual std::unique_ptr<collision::DiscreteContactManager> getDiscreteContactManager() const = 0;
  virtual std::unique_ptr<collision::ContinuousContactManager> getContinuousContactManager() const = 0;
  virtual std::shared_ptr<const kinematics::JointGroup> getJointGroup(const std::string& name) const = 0;
  virtual scene_graph::SceneState getState() const = 0;
  virtual std::vector<std::string> getActiveJointNames() const = 0;
  virtual std::unique_ptr<scene_graph::StateSolver> getStateSolver() const = 0;
};
}  // namespace tesseract::environment
