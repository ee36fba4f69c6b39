#pragma once
#include <tesseract/collision/types.h>
namespace tesseract::collision
{
class ContinuousContactManager
{
public:
  virtual ~ContinuousContactManager() = default;
  virtual void setActiveCollisionObjects(const std::vector<std::string>& names) = 0;
  virtual void applyContactManagerConfig(const ContactManagerConfig& config) = 0;
  virtual const common::CollisionMarginData& getCollisionMarginData() const = 0;
  virtual void incrementCollisionMargin(double increment) = 0;
  virtual void setCollisionObjectsTransform(const std::string& name, const Eigen::Isometry3d& pose) = 0;
  virtual void setCollisionObjectsTransform(const std::string& name, const Eigen::Isometry3d& pose1, const Eigen::Isometry3d& pose2) = 0;
  void setCollisionObjectsTransform(const common::TransformMap& poses)
  {
    for (const auto& p : poses)
      setCollisionObjectsTransform(p.first, p.second);
  }
  void setCollisionObjectsTransform(const common::TransformMap& pose1, const common::TransformMap& pose2)
  {
    for (const auto& p : pose1)
      setCollisionObjectsTransform(p.first, p.second, pose2.at(p.first));
  }
  virtual void contactTest(ContactResultMap& collisions, const ContactRequest& request) = 0;
};
}  // namespace tesseract::collision
