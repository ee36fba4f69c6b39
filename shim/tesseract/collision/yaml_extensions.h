// Stand-in: YAML of the settings of the contact managers.
#pragma once
#include <yaml-cpp/yaml.h>
#include <tesseract/collision/types.h>
#include <tesseract/common/yaml_extensions.h>
namespace YAML
{
template <>
struct convert<tesseract::collision::ContactManagerConfig>
{
  static Node encode(const tesseract::collision::ContactManagerConfig& rhs)
  {
    Node node;
    if (rhs.default_margin.has_value())
      node["default_margin"] = rhs.default_margin.value();
    node["pair_margin_override_type"] = rhs.pair_margin_override_type;
    if (!rhs.pair_margin_data.empty())
      node["pair_margin_data"] = rhs.pair_margin_data;
    return node;
  }
  static bool decode(const Node& node, tesseract::collision::ContactManagerConfig& rhs)
  {
    if (!node.IsMap())
      return false;
    if (const Node& n = node["default_margin"])
      rhs.default_margin = n.as<double>();
    if (const Node& n = node["pair_margin_override_type"])
      rhs.pair_margin_override_type = n.as<tesseract::common::CollisionMarginPairOverrideType>();
    if (const Node& n = node["pair_margin_data"])
      rhs.pair_margin_data = n.as<tesseract::common::CollisionMarginPairData>();
    return true;
  }
};
template <>
struct convert<tesseract::collision::CollisionCheckConfig>
{
  static constexpr int types = 5, modes = 6;
  static const char* typeName(int i)
  {
    static const char* const n[] = { "NONE", "DISCRETE", "LVS_DISCRETE", "CONTINUOUS", "LVS_CONTINUOUS" };
    return n[i];
  }
  static const char* modeName(int i)
  {
    static const char* const n[] = { "ALL", "ALL_EXCEPT_START", "ALL_EXCEPT_END", "START_ONLY", "END_ONLY", "INTERMEDIATE_ONLY" };
    return n[i];
  }
  static Node encode(const tesseract::collision::CollisionCheckConfig& rhs)
  {
    Node node;
    node["type"] = std::string(typeName(static_cast<int>(rhs.type)));
    node["check_program_mode"] = std::string(modeName(static_cast<int>(rhs.check_program_mode)));
    node["longest_valid_segment_length"] = rhs.longest_valid_segment_length;
    Node q;
    q["type"] = static_cast<int>(rhs.contact_request.type);
    q["calculate_penetration"] = rhs.contact_request.calculate_penetration;
    q["calculate_distance"] = rhs.contact_request.calculate_distance;
    q["contact_limit"] = rhs.contact_request.contact_limit;
    node["contact_request"] = q;
    return node;
  }
  static bool decode(const Node& node, tesseract::collision::CollisionCheckConfig& rhs)
  {
    if (!node.IsMap())
      return false;
    if (const Node& n = node["type"])
    {
      int i = 0;
      while (i < types && n.as<std::string>() != typeName(i))
        ++i;
      if (i == types)
        return false;
      rhs.type = static_cast<tesseract::collision::CollisionEvaluatorType>(i);
    }
    if (const Node& n = node["check_program_mode"])
    {
      int i = 0;
      while (i < modes && n.as<std::string>() != modeName(i))
        ++i;
      if (i == modes)
        return false;
      rhs.check_program_mode = static_cast<tesseract::collision::CollisionCheckProgramType>(i);
    }
    if (const Node& n = node["longest_valid_segment_length"])
      rhs.longest_valid_segment_length = n.as<double>();
    if (const Node& n = node["contact_request"])
    {
      rhs.contact_request.type = static_cast<tesseract::collision::ContactTestType>(n["type"].as<int>());
      rhs.contact_request.calculate_penetration = n["calculate_penetration"].as<bool>();
      rhs.contact_request.calculate_distance = n["calculate_distance"].as<bool>();
      rhs.contact_request.contact_limit = n["contact_limit"].as<long>();
    }
    return true;
  }
};
}  // namespace YAML
