// Stand-in: link name pairs.
#pragma once
#include <functional>
#include <string>
#include <utility>
namespace tesseract::common
{
using LinkNamesPair = std::pair<std::string, std::string>;
inline void makeOrderedLinkPair(LinkNamesPair& pair, const std::string& a, const std::string& b)
{
  pair = (a <= b) ? LinkNamesPair(a, b) : LinkNamesPair(b, a);
}
inline LinkNamesPair makeOrderedLinkPair(const std::string& a, const std::string& b)
{
  LinkNamesPair p;
  makeOrderedLinkPair(p, a, b);
  return p;
}
}  // namespace tesseract::common
template <>
struct std::hash<tesseract::common::LinkNamesPair>
{
  std::size_t operator()(const tesseract::common::LinkNamesPair& p) const
  {
    return std::hash<std::string>()(p.first + '\n' + p.second);
  }
};
