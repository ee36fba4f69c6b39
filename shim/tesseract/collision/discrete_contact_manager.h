#pragma once
#include <tesseract/collision/types.h>
namespace tesseract::collision
{
class DiscreteContactManager
{
public:
  virtual ~DiscreteContactManager() = default;
  virtual void setActiveCollisionObjects(const std::vector<std::string>& names) = 0;
  virtual void applyContactManagerConfig(const ContactManagerConfig& config) = 0;
  virtual const common::CollisionMarginData& getCollisionMarginData() const = 0;
  virtual void incrementCollisionMargin(double increment) = 0;
  virtual void setCollisionObjectsTransform(const std::string& name, const Eigen::Isometry3d& pose) = 0;
  void setCollisionObjectsTransform(const common::TransformMap& poses)
  {
    for (const auto& p : poses)
      setCollisionObjectsTransform(p.first, p.second);
  }
  virtual void contactTest(ContactResultMap& collisions, const ContactRequest& request) = 0;
};
}  // namespace tesseract::collision
