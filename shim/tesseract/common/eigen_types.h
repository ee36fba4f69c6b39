// Stand-in: the container types of tesseract_common the sources use.
#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
namespace tesseract::common
{
using TransformMap = std::unordered_map<std::string, Eigen::Isometry3d>;
using VectorIsometry3d = std::vector<Eigen::Isometry3d>;
using TrajArray = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
}  // namespace tesseract::common
