// Stand-in: a state solver is something a visualization is given.
#pragma once
#include <memory>
namespace tesseract::scene_graph
{
class StateSolver
{
public:
  using Ptr = std::shared_ptr<StateSolver>;
  virtual ~StateSolver() = default;
};
}  // namespace tesseract::scene_graph
