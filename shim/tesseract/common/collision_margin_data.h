// Stand-in: default and per-pair margins.
#pragma once
#include <algorithm>
#include <map>
#include <optional>
#include <tesseract/common/types.h>
namespace tesseract::common
{
/// whether pair margins are not applied, added to those there are, or replace them
enum class CollisionMarginPairOverrideType
{
  NONE = 0,
  MODIFY,
  REPLACE
};
class CollisionMarginPairData
{
public:
  void setCollisionMargin(const std::string& a, const std::string& b, double m) { pair_[makeOrderedLinkPair(a, b)] = m; }
  std::optional<double> getCollisionMargin(const std::string& a, const std::string& b) const
  {
    auto it = pair_.find(makeOrderedLinkPair(a, b));
    return it == pair_.end() ? std::optional<double>() : it->second;
  }
  const std::map<LinkNamesPair, double>& getCollisionMargins() const { return pair_; }
  bool empty() const { return pair_.empty(); }
  void scaleMargins(double scale)
  {
    for (auto& p : pair_)
      p.second *= scale;
  }
  bool operator==(const CollisionMarginPairData& o) const { return pair_ == o.pair_; }

private:
  std::map<LinkNamesPair, double> pair_;
};
class CollisionMarginData
{
public:
  explicit CollisionMarginData(double def = 0) : def_(def) {}
  void setDefaultCollisionMargin(double m) { def_ = m; }
  double getDefaultCollisionMargin() const { return def_; }
  void setCollisionMargin(const std::string& a, const std::string& b, double m) { pair_[makeOrderedLinkPair(a, b)] = m; }
  double getCollisionMargin(const std::string& a, const std::string& b) const
  {
    auto it = pair_.find(makeOrderedLinkPair(a, b));
    return it == pair_.end() ? def_ : it->second;
  }
  void apply(const CollisionMarginPairData& d, CollisionMarginPairOverrideType t)
  {
    if (t == CollisionMarginPairOverrideType::NONE)
      return;
    if (t == CollisionMarginPairOverrideType::REPLACE)
      pair_.clear();
    for (const auto& p : d.getCollisionMargins())
      pair_[p.first] = p.second;
  }
  double getMaxCollisionMargin() const
  {
    double m = def_;
    for (const auto& p : pair_)
      m = std::max(m, p.second);
    return m;
  }
  void incrementMargins(double inc)
  {
    def_ += inc;
    for (auto& p : pair_)
      p.second += inc;
  }
  bool operator==(const CollisionMarginData& o) const { return def_ == o.def_ && pair_ == o.pair_; }

private:
  double def_;
  std::map<LinkNamesPair, double> pair_;
};
}  // namespace tesseract::common
