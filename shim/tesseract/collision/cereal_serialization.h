// Stand-in: archives of the settings of the contact managers.
#pragma once
#include <cereal/cereal.hpp>
#include <cereal/types/map.hpp>
#include <cereal/types/optional.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/utility.hpp>
#include <tesseract/collision/types.h>
namespace tesseract::common
{
template <class Archive>
void save(Archive& ar, const CollisionMarginPairData& d)
{
  ar(cereal::make_nvp("margins", d.getCollisionMargins()));
}
template <class Archive>
void load(Archive& ar, CollisionMarginPairData& d)
{
  std::map<LinkNamesPair, double> m;
  ar(cereal::make_nvp("margins", m));
  d = CollisionMarginPairData();
  for (const auto& p : m)
    d.setCollisionMargin(p.first.first, p.first.second, p.second);
}
}  // namespace tesseract::common
namespace tesseract::collision
{
template <class Archive>
void serialize(Archive& ar, ContactRequest& r)
{
  ar(cereal::make_nvp("type", r.type), cereal::make_nvp("calculate_penetration", r.calculate_penetration),
     cereal::make_nvp("calculate_distance", r.calculate_distance), cereal::make_nvp("contact_limit", r.contact_limit));
}
template <class Archive>
void serialize(Archive& ar, ContactManagerConfig& c)
{
  ar(cereal::make_nvp("default_margin", c.default_margin), cereal::make_nvp("pair_margin_override_type", c.pair_margin_override_type),
     cereal::make_nvp("pair_margin_data", c.pair_margin_data));
}
template <class Archive>
void serialize(Archive& ar, CollisionCheckConfig& c)
{
  ar(cereal::make_nvp("contact_request", c.contact_request), cereal::make_nvp("type", c.type),
     cereal::make_nvp("longest_valid_segment_length", c.longest_valid_segment_length), cereal::make_nvp("check_program_mode", c.check_program_mode));
}
}  // namespace tesseract::collision
