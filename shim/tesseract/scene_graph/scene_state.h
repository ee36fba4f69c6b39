// Stand-in: where the joints of a scene are.
#pragma once
#include <string>
#include <unordered_map>
namespace tesseract::scene_graph
{
struct SceneState
{
  std::unordered_map<std::string, double> joints;
};
}  // namespace tesseract::scene_graph
