#pragma once
#include <Eigen/Core>
#include <memory>
#include <string>
namespace tesseract::scene_graph
{
struct Material
{
  explicit Material(std::string n) : color(0.5, 0.5, 0.5, 1), name(std::move(n)) {}
  Eigen::Vector4d color;
  std::string name;
};
}  // namespace tesseract::scene_graph
