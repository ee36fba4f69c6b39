#pragma once
#include <tesseract/common/eigen_types.h>
namespace tesseract::common
{
struct JointState
{
  JointState(std::vector<std::string> joint_names, Eigen::VectorXd position) : joint_names(std::move(joint_names)), position(std::move(position)) {}
  std::vector<std::string> joint_names;
  Eigen::VectorXd position;
};
struct JointTrajectory
{
  std::vector<JointState> states;
  void reserve(std::size_t n) { states.reserve(n); }
};
}  // namespace tesseract::common
