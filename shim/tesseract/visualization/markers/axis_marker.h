#pragma once
#include <tesseract/visualization/visualization.h>
namespace tesseract::visualization
{
class AxisMarker : public Marker
{
public:
  explicit AxisMarker(const Eigen::Isometry3d& p) : pose(p) {}
  int getType() const override { return static_cast<int>(MarkerType::AXIS); }
  Eigen::Isometry3d pose;
};
}  // namespace tesseract::visualization
