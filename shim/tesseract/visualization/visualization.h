// Stand-in: a visualization is something markers are given to.
#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <memory>
#include <string>
#include <vector>
#include <tesseract/common/joint_state.h>
namespace tesseract::scene_graph
{
class StateSolver;
}
namespace tesseract::visualization
{
enum class MarkerType { AXIS, ARROW, CONTACT_RESULTS };
class Marker
{
public:
  virtual ~Marker() = default;
  virtual int getType() const = 0;
  virtual void setScale(const Eigen::Vector3d& s) { scale = s; }
  Eigen::Vector3d scale{ Eigen::Vector3d::Ones() };
};
class Visualization
{
public:
  using Ptr = std::shared_ptr<Visualization>;
  virtual ~Visualization() = default;
  virtual void plotMarker(const Marker& marker, std::string ns = "") = 0;
  virtual void plotTrajectory(const common::JointTrajectory& traj, const scene_graph::StateSolver& state_solver, std::string ns = "") = 0;
  virtual void clear(std::string ns = "") = 0;
  virtual void waitForInput(std::string message = "") = 0;
};
}  // namespace tesseract::visualization
