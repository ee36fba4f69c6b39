// Stand-in: the contact data types of tesseract_collision, as far as the sources use them.
#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <algorithm>
#include <array>
#include <functional>
#include <iterator>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <tesseract/common/collision_margin_data.h>
#include <tesseract/common/eigen_types.h>
#include <tesseract/common/types.h>
#include <tesseract/common/utils.h>
namespace tesseract::collision
{
enum class ContinuousCollisionType
{
  CCType_None,
  CCType_Time0,
  CCType_Time1,
  CCType_Between
};
enum class ContactTestType
{
  FIRST,
  CLOSEST,
  ALL,
  LIMITED
};
enum class CollisionEvaluatorType
{
  NONE,
  DISCRETE,
  LVS_DISCRETE,
  CONTINUOUS,
  LVS_CONTINUOUS
};
enum class CollisionCheckProgramType
{
  ALL,
  ALL_EXCEPT_START,
  ALL_EXCEPT_END,
  START_ONLY,
  END_ONLY,
  INTERMEDIATE_ONLY
};
struct ContactRequest
{
  ContactTestType type{ ContactTestType::ALL };
  bool calculate_penetration{ true };
  bool calculate_distance{ true };
  long contact_limit{ 0 };
  ContactRequest(ContactTestType t = ContactTestType::ALL) : type(t) {}
  bool operator==(const ContactRequest& o) const
  {
    return type == o.type && calculate_penetration == o.calculate_penetration && calculate_distance == o.calculate_distance && contact_limit == o.contact_limit;
  }
};
using CollisionMarginPairOverrideType = common::CollisionMarginPairOverrideType;
struct ContactManagerConfig
{
  ContactManagerConfig() = default;
  explicit ContactManagerConfig(double margin) : default_margin(margin) {}
  std::optional<double> default_margin;
  CollisionMarginPairOverrideType pair_margin_override_type{ CollisionMarginPairOverrideType::NONE };
  common::CollisionMarginPairData pair_margin_data;
  void scaleMargins(double scale)
  {
    if (default_margin.has_value())
      default_margin = default_margin.value() * scale;
    pair_margin_data.scaleMargins(scale);
  }
  bool operator==(const ContactManagerConfig& o) const
  {
    return default_margin == o.default_margin && pair_margin_override_type == o.pair_margin_override_type && pair_margin_data == o.pair_margin_data;
  }
};
struct CollisionCheckConfig
{
  CollisionCheckConfig() = default;
  CollisionCheckConfig(ContactRequest request, CollisionEvaluatorType type = CollisionEvaluatorType::DISCRETE,
                       double longest_valid_segment_length = 0.005, CollisionCheckProgramType mode = CollisionCheckProgramType::ALL)
    : contact_request(std::move(request)), type(type), longest_valid_segment_length(longest_valid_segment_length), check_program_mode(mode)
  {
  }
  ContactRequest contact_request;
  CollisionEvaluatorType type{ CollisionEvaluatorType::DISCRETE };
  double longest_valid_segment_length{ 0.005 };
  CollisionCheckProgramType check_program_mode{ CollisionCheckProgramType::ALL };
  bool operator==(const CollisionCheckConfig& o) const
  {
    return contact_request == o.contact_request && type == o.type &&
           common::almostEqualRelativeAndAbs(longest_valid_segment_length, o.longest_valid_segment_length, 1e-7) &&
           check_program_mode == o.check_program_mode;
  }
};
struct ContactResult
{
  double distance{ std::numeric_limits<double>::max() };
  std::array<int, 2> type_id{ 0, 0 };
  std::array<std::string, 2> link_names;
  std::array<int, 2> shape_id{ -1, -1 };
  std::array<int, 2> subshape_id{ -1, -1 };
  std::array<Eigen::Vector3d, 2> nearest_points{ Eigen::Vector3d::Zero(), Eigen::Vector3d::Zero() };
  std::array<Eigen::Vector3d, 2> nearest_points_local{ Eigen::Vector3d::Zero(), Eigen::Vector3d::Zero() };
  std::array<Eigen::Isometry3d, 2> transform{ Eigen::Isometry3d::Identity(), Eigen::Isometry3d::Identity() };
  Eigen::Vector3d normal{ Eigen::Vector3d::Zero() };
  std::array<double, 2> cc_time{ -1, -1 };
  std::array<ContinuousCollisionType, 2> cc_type{ ContinuousCollisionType::CCType_None, ContinuousCollisionType::CCType_None };
  std::array<Eigen::Isometry3d, 2> cc_transform{ Eigen::Isometry3d::Identity(), Eigen::Isometry3d::Identity() };
  bool single_contact_point{ false };
};
using ContactResultVector = std::vector<ContactResult>;

class ContactResultMap
{
public:
  using KeyType = common::LinkNamesPair;
  using MappedType = ContactResultVector;
  using ContainerType = std::map<KeyType, MappedType>;
  using PairType = typename std::pair<const KeyType, MappedType>;
  using FilterFn = std::function<void(PairType&)>;

  ContactResult& addContactResult(const KeyType& key, ContactResult r)
  {
    auto& v = data_[key];
    v.push_back(std::move(r));
    ++count_;
    return v.back();
  }
  ContactResult& addContactResult(const KeyType& key, const MappedType& r)
  {
    auto& v = data_[key];
    v.insert(v.end(), r.begin(), r.end());
    count_ += static_cast<long>(r.size());
    return v.back();
  }
  /// @brief collects the results of one sub-segment; the times are those of the whole segment afterwards
  void addInterpolatedCollisionResults(ContactResultMap& sub, long sub_segment_index, long sub_segment_last_index,
                                       const std::vector<std::string>& active_link_names, double segment_dt, bool discrete,
                                       const FilterFn& filter = nullptr)
  {
    for (auto& pair : sub.data_)
    {
      for (auto& r : pair.second)
        for (std::size_t j = 0; j < 2; ++j)
        {
          if (std::find(active_link_names.begin(), active_link_names.end(), r.link_names[j]) == active_link_names.end())
            continue;
          r.cc_time[j] = discrete ? static_cast<double>(sub_segment_index) * segment_dt :
                                    (r.cc_time[j] < 0 ? static_cast<double>(sub_segment_index) * segment_dt :
                                                        (static_cast<double>(sub_segment_index) + r.cc_time[j]) * segment_dt);
          if (sub_segment_index == 0 && (r.cc_type[j] == ContinuousCollisionType::CCType_Time0 || discrete))
            r.cc_type[j] = ContinuousCollisionType::CCType_Time0;
          else if (sub_segment_index == sub_segment_last_index && (r.cc_type[j] == ContinuousCollisionType::CCType_Time1 || discrete))
            r.cc_type[j] = ContinuousCollisionType::CCType_Time1;
          else
            r.cc_type[j] = ContinuousCollisionType::CCType_Between;
          r.cc_transform[j] = discrete ? r.transform[j] : r.cc_transform[j];
        }
      if (filter)
      {
        filter(pair);
      }
      if (!pair.second.empty())
        addContactResult(pair.first, pair.second);
    }
  }
  long count() const { return count_; }
  std::size_t size() const
  {
    std::size_t n = 0;
    for (const auto& p : data_)
      n += !p.second.empty();
    return n;
  }
  bool empty() const { return count_ == 0; }
  /// keeps the keys, as tesseract does
  void clear()
  {
    for (auto& p : data_)
      p.second.clear();
    count_ = 0;
  }
  void release()
  {
    data_.clear();
    count_ = 0;
  }
  void filter(const FilterFn& f)
  {
    count_ = 0;
    for (auto& p : data_)
    {
      f(p);
      count_ += static_cast<long>(p.second.size());
    }
  }
  void flattenWrapperResults(std::vector<std::reference_wrapper<const ContactResult>>& v) const
  {
    v.clear();
    for (const auto& p : data_)
      v.insert(v.end(), p.second.begin(), p.second.end());
  }
  ContainerType::const_iterator begin() const { return data_.begin(); }
  ContainerType::const_iterator end() const { return data_.end(); }
  ContainerType::const_iterator find(const KeyType& k) const { return data_.find(k); }
  const ContainerType& getContainer() const { return data_; }

private:
  ContainerType data_;
  long count_{ 0 };
};
}  // namespace tesseract::collision
