#pragma once
namespace tesseract::scene_graph
{
class StateSolver;
}
