#pragma once
#include <functional>
#include <tesseract/collision/types.h>
#include <tesseract/visualization/visualization.h>
namespace tesseract::visualization
{
class ContactResultsMarker : public Marker
{
public:
  using MarginFn = std::function<double(const std::string&, const std::string&)>;
  ContactResultsMarker(const std::vector<std::string>& links, collision::ContactResultVector results, MarginFn fn)
    : link_names(links), dist_results(std::move(results)), margin_fn(std::move(fn))
  {
  }
  int getType() const override { return static_cast<int>(MarkerType::CONTACT_RESULTS); }
  std::vector<std::string> link_names;
  collision::ContactResultVector dist_results;
  MarginFn margin_fn;
};
}  // namespace tesseract::visualization
