#pragma once
#include <tesseract/scene_graph/link.h>
#include <tesseract/visualization/visualization.h>
namespace tesseract::visualization
{
class ArrowMarker : public Marker
{
public:
  ArrowMarker(const Eigen::Vector3d& a, const Eigen::Vector3d& b) : from(a), to(b) {}
  int getType() const override { return static_cast<int>(MarkerType::ARROW); }
  Eigen::Vector3d from, to;
  std::shared_ptr<scene_graph::Material> material;
};
}  // namespace tesseract::visualization
