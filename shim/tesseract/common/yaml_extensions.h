// Stand-in: YAML of the types of the other stand-ins.
#pragma once
#include <yaml-cpp/yaml.h>
#include <tesseract/common/collision_margin_data.h>
namespace YAML
{
template <>
struct convert<tesseract::common::CollisionMarginPairOverrideType>
{
  static Node encode(const tesseract::common::CollisionMarginPairOverrideType& rhs)
  {
    static const char* const names[] = { "NONE", "MODIFY", "REPLACE" };
    return Node(std::string(names[static_cast<int>(rhs)]));
  }
  static bool decode(const Node& node, tesseract::common::CollisionMarginPairOverrideType& rhs)
  {
    const std::string s = node.as<std::string>();
    static const char* const names[] = { "NONE", "MODIFY", "REPLACE" };
    for (int i = 0; i < 3; ++i)
      if (s == names[i])
      {
        rhs = static_cast<tesseract::common::CollisionMarginPairOverrideType>(i);
        return true;
      }
    return false;
  }
};
template <>
struct convert<tesseract::common::CollisionMarginPairData>
{
  static Node encode(const tesseract::common::CollisionMarginPairData& rhs)
  {
    Node node(NodeType::Sequence);
    for (const auto& p : rhs.getCollisionMargins())
    {
      Node e;
      e["first"] = p.first.first;
      e["second"] = p.first.second;
      e["margin"] = p.second;
      node.push_back(e);
    }
    return node;
  }
  static bool decode(const Node& node, tesseract::common::CollisionMarginPairData& rhs)
  {
    for (const auto& e : node)
      rhs.setCollisionMargin(e["first"].as<std::string>(), e["second"].as<std::string>(), e["margin"].as<double>());
    return true;
  }
};
}  // namespace YAML
