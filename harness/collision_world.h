// A world of spheres: serial manipulators with analytic kinematics, and contact managers that know every contact exactly.
#pragma once
#include "robot.h"
#include <tesseract/collision/continuous_contact_manager.h>
#include <tesseract/collision/discrete_contact_manager.h>
#include <tesseract/environment/environment.h>
#include <trajopt_common/collision_types.h>
#include <trajopt_common/collision_utils.h>
namespace cw
{
namespace tcol = tesseract::collision;
struct Sphere
{
  Vector3d at;
  double r;
};
struct Shape
{
  int id, sub;
  std::vector<Sphere> spheres;
};
struct Geometry
{
  std::map<std::string, std::vector<Shape>> of;  ///< link -> shapes
  std::set<tc::LinkNamesPair> allowed;           ///< pairs never checked
  std::set<tc::LinkNamesPair> swapped;           ///< pairs whose contacts name the later link first
};
/// one contact, as it is
struct Contact
{
  tc::LinkNamesPair key;
  std::array<std::string, 2> link;
  std::array<int, 2> shape, sub;
  std::array<double, 2> time;          ///< where on its motion the link touches; 0.5 for one which does not move
  std::array<Vector3d, 2> point;       ///< the nearest points at these times
  std::array<Vector3d, 2> centre0, centre1, centre;
  std::array<double, 2> radius;
  Vector3d normal;                     ///< from link[0] to link[1]
  double distance;
  bool degenerate{ false };            ///< the nearest points are not unique
};
/// nearest points of two segments, by their parameters
inline void closestSegments(const Vector3d& p1, const Vector3d& q1, const Vector3d& p2, const Vector3d& q2, double& s, double& t, bool& degenerate)
{
  const Vector3d d1 = q1 - p1, d2 = q2 - p2, w = p1 - p2;
  const double a = d1.squaredNorm(), e = d2.squaredNorm(), f = d2.dot(w);
  auto clamp = [](double v) { return std::min(1.0, std::max(0.0, v)); };
  const double eps = 1e-18;
  degenerate = false;
  if (a <= eps && e <= eps)
  {
    s = t = 0.5;
    return;
  }
  if (a <= eps)
  {
    s = 0.5;
    t = clamp(f / e);
    return;
  }
  const double cc = d1.dot(w);
  if (e <= eps)
  {
    t = 0.5;
    s = clamp(-cc / a);
    return;
  }
  const double b = d1.dot(d2), den = a * e - b * b;
  if (den > 1e-6 * a * e)
    s = clamp((b * f - cc * e) / den);
  else
  {
    s = 0;
    degenerate = true;
  }
  t = (b * s + f) / e;
  if (t < 0)
  {
    t = 0;
    s = clamp(-cc / a);
  }
  else if (t > 1)
  {
    t = 1;
    s = clamp((b - cc) / a);
  }
}
/// poses of every link at the start and at the end of a motion (the same for links which do not move)
using Poses = std::map<std::string, std::pair<Isometry3d, Isometry3d>>;
/// all contacts below `limit(pair)`
inline std::vector<Contact> contacts(const Geometry& g, const Poses& poses, const std::set<std::string>& active,
                                     const std::function<double(const tc::LinkNamesPair&)>& limit)
{
  std::vector<Contact> out;
  for (auto i = g.of.begin(); i != g.of.end(); ++i)
    for (auto j = std::next(i); j != g.of.end(); ++j)
    {
      if (!active.count(i->first) && !active.count(j->first))
        continue;
      const auto key = tc::makeOrderedLinkPair(i->first, j->first);
      if (g.allowed.count(key))
        continue;
      const bool swap = g.swapped.count(key) != 0;
      const auto& A = swap ? *j : *i;
      const auto& B = swap ? *i : *j;
      const auto &pa = poses.at(A.first), &pb = poses.at(B.first);
      const double lim = limit(key);
      for (const auto& sa : A.second)
        for (const auto& sb : B.second)
          for (const auto& a : sa.spheres)
            for (const auto& b : sb.spheres)
            {
              Contact k;
              k.key = key;
              k.link = { A.first, B.first };
              k.shape = { sa.id, sb.id };
              k.sub = { sa.sub, sb.sub };
              k.centre0 = { pa.first * a.at, pb.first * b.at };
              k.centre1 = { pa.second * a.at, pb.second * b.at };
              closestSegments(k.centre0[0], k.centre1[0], k.centre0[1], k.centre1[1], k.time[0], k.time[1], k.degenerate);
              for (std::size_t e = 0; e < 2; ++e)
                k.centre[e] = k.centre0[e] + k.time[e] * (k.centre1[e] - k.centre0[e]);
              const Vector3d d = k.centre[1] - k.centre[0];
              k.radius = { a.r, b.r };
              k.distance = d.norm() - a.r - b.r;
              k.normal = d.norm() > 1e-12 ? Vector3d(d.normalized()) : Vector3d::UnitZ();
              if (d.norm() <= 1e-9)
                k.degenerate = true;
              k.point = { k.centre[0] + a.r * k.normal, k.centre[1] - b.r * k.normal };
              if (k.distance <= lim)
                out.push_back(k);
            }
    }
  return out;
}

struct Test
{
  std::vector<VectorXd> q;  ///< the state(s) the check was made at
  std::string problem;
};
struct World
{
  std::shared_ptr<Robot> robot;
  Geometry geo;
  std::map<std::string, Isometry3d> statics;   ///< poses of the links nobody moves
  std::map<std::string, Isometry3d> dynamics;  ///< poses of the links others move
  std::map<std::string, Isometry3d> dynamics_at_clone;
  bool report_to_max{ false };                 ///< managers report contacts up to the largest margin of any pair
  bool clear_names{ true };
  std::vector<Test> tests;
  bool record{ true };  ///< keep `tests`; not where threads share the world
  std::set<std::string> active() const
  {
    const auto a = robot->getActiveLinkNames();
    return { a.begin(), a.end() };
  }
};
template <class Base>
struct ManagerCommon : Base
{
  std::shared_ptr<World> w;
  std::set<std::string> active;
  tc::CollisionMarginData margin{ 0.0 };
  Poses poses;
  std::map<std::string, bool> two;
  explicit ManagerCommon(std::shared_ptr<World> world) : w(std::move(world))
  {
    for (const auto& p : w->statics)
      poses[p.first] = { p.second, p.second };
    for (const auto& p : w->dynamics)
      poses[p.first] = { p.second, p.second };
    // where the robot was when the environment handed out the manager: nowhere near
    for (const auto& l : w->robot->links)
      if (!poses.count(l))
      {
        Isometry3d far = Isometry3d::Identity();
        far.translation().x() = 1e3;
        poses[l] = { far, far };
      }
    poses[w->robot->links[0]] = { Isometry3d::Identity(), Isometry3d::Identity() };
  }
  void setActiveCollisionObjects(const std::vector<std::string>& n) override { active = { n.begin(), n.end() }; }
  void applyContactManagerConfig(const tcol::ContactManagerConfig& c) override
  {
    if (c.default_margin)
      margin.setDefaultCollisionMargin(*c.default_margin);
    margin.apply(c.pair_margin_data, c.pair_margin_override_type);
  }
  const tc::CollisionMarginData& getCollisionMarginData() const override { return margin; }
  void incrementCollisionMargin(double i) override { margin.incrementMargins(i); }
  void setCollisionObjectsTransform(const std::string& n, const Isometry3d& T) override
  {
    poses[n] = { T, T };
    two[n] = false;
  }
  /// the state whose kinematics these are
  const State* find(bool second) const
  {
    for (auto it = w->robot->log.rbegin(); it != w->robot->log.rend(); ++it)
    {
      bool same = true;
      for (const auto& a : it->active)
      {
        const auto& p = poses.at(a.first);
        same = same && (second ? p.second : p.first).matrix() == a.second.matrix();
      }
      if (same)
        return &*it;
    }
    return nullptr;
  }
  void report(tcol::ContactResultMap& out, const tcol::ContactRequest& request, bool cast)
  {
    if (w->record)
      note(cast);
    const double mx = margin.getMaxCollisionMargin();
    auto all = contacts(w->geo, poses, active, [&](const tc::LinkNamesPair& k) { return w->report_to_max ? mx : margin.getCollisionMargin(k.first, k.second); });
    std::map<tc::LinkNamesPair, double> closest;
    for (const auto& k : all)
    {
      auto it = closest.find(k.key);
      if (it == closest.end() || k.distance < it->second)
        closest[k.key] = k.distance;
    }
    for (const auto& k : all)
    {
      if (request.type == tcol::ContactTestType::CLOSEST && k.distance != closest[k.key])
        continue;
      tcol::ContactResult r;
      r.distance = k.distance;
      r.link_names = k.link;
      r.shape_id = k.shape;
      r.subshape_id = k.sub;
      r.nearest_points = k.point;
      r.normal = k.normal;
      for (std::size_t e = 0; e < 2; ++e)
      {
        const auto& p = poses.at(k.link[e]);
        r.transform[e] = p.first;
        r.cc_transform[e] = p.second;
        // the point of the link which touches
        const Vector3d off = (e == 0 ? 1.0 : -1.0) * k.radius[e] * k.normal;
        r.nearest_points_local[e] = p.first.inverse() * (k.centre0[e] + off);
        if (cast && active.count(k.link[e]))
        {
          r.cc_time[e] = k.time[e];
          r.cc_type[e] = k.time[e] <= 0 ? tcol::ContinuousCollisionType::CCType_Time0 :
                                          (k.time[e] >= 1 ? tcol::ContinuousCollisionType::CCType_Time1 : tcol::ContinuousCollisionType::CCType_Between);
        }
      }
      out.addContactResult(k.key, std::move(r));
    }
  }
  void note(bool cast)
  {
    Test t;
    const State *s0 = find(false), *s1 = find(true);
    if (s0 == nullptr || s1 == nullptr)
      t.problem = "the links checked are not where any state of the manipulator puts them";
    else
    {
      t.q.push_back(s0->q);
      if (cast)
        t.q.push_back(s1->q);
    }
    if (active != w->active())
      t.problem = "the active links are not the manipulator's";
    for (const auto& d : w->dynamics)
      if (w->geo.of.count(d.first) && poses.at(d.first).first.matrix() != d.second.matrix())
        t.problem = "moving link " + d.first + " was not where the environment has it";
    w->tests.push_back(t);
  }
};
struct Discrete : ManagerCommon<tcol::DiscreteContactManager>
{
  using ManagerCommon::ManagerCommon;
  void contactTest(tcol::ContactResultMap& out, const tcol::ContactRequest& r) override { report(out, r, false); }
};
struct Continuous : ManagerCommon<tcol::ContinuousContactManager>
{
  using ManagerCommon::ManagerCommon;
  using ManagerCommon::setCollisionObjectsTransform;
  void setCollisionObjectsTransform(const std::string& n, const Isometry3d& a, const Isometry3d& b) override
  {
    if (!active.count(n))
      throw std::runtime_error("start and end pose given for a link which is not active");
    poses[n] = { a, b };
    two[n] = true;
  }
  void contactTest(tcol::ContactResultMap& out, const tcol::ContactRequest& r) override { report(out, r, true); }
};
struct Env : tesseract::environment::Environment
{
  std::shared_ptr<World> w;
  explicit Env(std::shared_ptr<World> world) : w(std::move(world)) {}
  std::vector<std::string> getActiveLinkNames() const override
  {
    auto a = w->robot->getActiveLinkNames();
    for (const auto& d : w->dynamics)
      a.push_back(d.first);
    return a;
  }
  void getLinkTransforms(tc::TransformMap& t, const std::vector<std::string>& names, const Eigen::Ref<const VectorXd>& q) const override
  {
    if (names != w->robot->getJointNames())
      throw std::runtime_error("joint names are not the manipulator's");
    w->robot->calcFwdKin(t, q);
    for (const auto& p : w->statics)
      t[p.first] = p.second;
    for (const auto& p : w->dynamics)
      t[p.first] = p.second;
  }
  std::shared_ptr<const tesseract::kinematics::JointGroup> getJointGroup(const std::string& name) const override
  {
    if (name != manip)
      return nullptr;
    return w->robot;
  }
  tesseract::scene_graph::SceneState getState() const override { return state; }
  std::vector<std::string> other_joints;  ///< joints of the environment which the manipulator does not have
  std::vector<std::string> getActiveJointNames() const override
  {
    auto n = other_joints;
    for (const auto& j : w->robot->getJointNames())
      n.push_back(j);
    return n;
  }
  std::unique_ptr<tesseract::scene_graph::StateSolver> getStateSolver() const override { return std::make_unique<tesseract::scene_graph::StateSolver>(); }
  std::string manip{ "manipulator" };
  tesseract::scene_graph::SceneState state;
  std::unique_ptr<tcol::DiscreteContactManager> getDiscreteContactManager() const override { return std::make_unique<Discrete>(w); }
  std::unique_ptr<tcol::ContinuousContactManager> getContinuousContactManager() const override { return std::make_unique<Continuous>(w); }
};
/// a manipulator among spheres; `dense` puts them where the manipulator is
inline std::shared_ptr<World> randWorld(mon::Rng& r, int dof, bool gantry, bool dynamic)
{
  auto w = std::make_shared<World>();
  w->robot = randRobot(r, dof, gantry);
  auto shapes = [&](double size) {
    std::vector<Shape> v;
    const int n = r.range(1, 3);
    // ids of shapes without parts and of parts of shapes
    std::set<std::pair<int, int>> used;
    for (int i = 0; i < n; ++i)
    {
      Shape s;
      do
      {
        s.id = r.range(0, 3);
        s.sub = r.chance(0.5) ? -1 : r.range(0, 3);
      } while (!used.insert({ s.id, s.sub }).second);
      for (int k = r.chance(0.3) ? r.range(2, 3) : 1; k > 0; --k)
        s.spheres.push_back({ Vector3d(r.unif(-size, size), r.unif(-size, size), r.unif(-size, size)), r.unif(0.02, 0.12) });
      v.push_back(s);
    }
    return v;
  };
  for (std::size_t i = 0; i < w->robot->links.size(); ++i)
    if (r.chance(i == 0 ? 0.4 : 0.8))
      w->geo.of[w->robot->links[i]] = shapes(0.15);
  const int ns = r.range(0, 3);
  auto name = [&](const std::string& base, int i) { return (r.chance(0.5) ? "a_" : "zz_") + base + std::to_string(i); };
  for (int i = 0; i < ns; ++i)
  {
    const auto n = name("box", i);
    w->statics[n] = randPose(r, 0.5);
    w->geo.of[n] = shapes(0.2);
  }
  if (dynamic)
    for (int i = r.range(0, 2); i > 0; --i)
    {
      const auto n = name("person", i);
      w->dynamics[n] = randPose(r, 0.5);
      w->geo.of[n] = shapes(0.2);
    }
  // links next to each other are not checked
  for (std::size_t i = 1; i < w->robot->links.size(); ++i)
    if (r.chance(0.7))
      w->geo.allowed.insert(tc::makeOrderedLinkPair(w->robot->links[i - 1], w->robot->links[i]));
  for (const auto& a : w->geo.of)
    for (const auto& b : w->geo.of)
      if (a.first < b.first && r.chance(0.3))
        w->geo.swapped.insert({ a.first, b.first });
  w->report_to_max = r.chance(0.5);
  return w;
}
}  // namespace cw
