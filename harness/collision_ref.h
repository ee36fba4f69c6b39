// What the collision checks of a motion must find, from the states the contact managers were asked about.
#pragma once
#include "collision_world.h"
namespace cw
{
using tcol::CollisionEvaluatorType;
struct RefConfig
{
  double margin, buffer, coeff;
  std::map<tc::LinkNamesPair, double> margins, coeffs;
  double marginOf(const tc::LinkNamesPair& k) const
  {
    auto it = margins.find(k);
    return it == margins.end() ? margin : it->second;
  }
  double coeffOf(const tc::LinkNamesPair& k) const
  {
    auto it = coeffs.find(k);
    return it == coeffs.end() ? coeff : it->second;
  }
};
inline trajopt_common::TrajOptCollisionConfig makeConfig(mon::Rng& r, const World& w, CollisionEvaluatorType type, RefConfig& ref)
{
  tcol::ContactRequest req;
  if (r.chance(0.3))
    req.type = tcol::ContactTestType::CLOSEST;
  ref.margin = r.chance(0.15) ? 0.0 : r.unif(0.0, 0.4);
  ref.coeff = r.chance(0.3) ? 1.0 : r.unif(0.2, 5);
  trajopt_common::TrajOptCollisionConfig cfg(ref.margin, ref.coeff, req, type, r.unif(0.03, 0.4));
  ref.buffer = cfg.collision_margin_buffer = r.chance(0.05) ? 0.0 : r.unif(0.005, 0.4);
  std::vector<tc::LinkNamesPair> pairs;
  for (const auto& a : w.geo.of)
    for (const auto& b : w.geo.of)
      if (a.first < b.first)
        pairs.push_back({ a.first, b.first });
  for (const auto& p : pairs)
  {
    if (r.chance(0.25))
    {
      ref.margins[p] = r.unif(-0.05, 0.5);
      cfg.contact_manager_config.pair_margin_data.setCollisionMargin(p.first, p.second, ref.margins[p]);
      cfg.contact_manager_config.pair_margin_override_type = tcol::CollisionMarginPairOverrideType::MODIFY;
    }
    for (int k = 0; k < 2; ++k)
      if (r.chance(k == 0 ? 0.3 : 0.1))
      {
        const bool other = r.chance(0.5);
        const double v = r.chance(0.4) ? 0.0 : r.unif(0.2, 5);
        cfg.collision_coeff_data.setCollisionCoeff(other ? p.second : p.first, other ? p.first : p.second, v);
        ref.coeffs[p] = v;
      }
  }
  return cfg;
}

/// one expected contact
struct Exp
{
  Contact k;
  double error;
  double coeff;
  std::array<bool, 2> active;
  std::array<double, 2> T;                       ///< over the whole motion
  std::array<VectorXd, 2> g;                     ///< change of the distance with the link, for a change of the state it touches in
  VectorXd j0, j1;                               ///< change of the value with the first and the second state
};
/// one set of contacts: of one pair of shapes
struct Set
{
  tc::LinkNamesPair key;
  std::array<std::pair<int, int>, 2> shapes;
  std::vector<const Exp*> all;
  double error{ -1e300 };
  double coeff{ 1 };
  VectorXd j0, j1;   ///< weighted averages
  VectorXd w0, w1;   ///< of the worst contact alone
  bool sharp{ true };
};
struct Row
{
  double value, coeff;
  VectorXd j0, j1;
};
inline std::string show(const VectorXd& v)
{
  std::ostringstream o;
  o.precision(10);
  o << v.transpose();
  return o.str();
}

struct Expecter
{
  mon::Case& c;
  std::shared_ptr<World> w;
  RefConfig ref;
  trajopt_common::TrajOptCollisionConfig cfg;
  CollisionEvaluatorType type;
  bool gantry;
  bool fix0{ false }, fix1{ false };
  bool one_cast{ true };  ///< motions checked continuously are checked in one cast
  double gap{ 0 };  ///< largest part of the motion checked at once

  /// what is expected, from the states the managers were asked about
  std::vector<Exp> expected(const VectorXd& q0, const VectorXd& q1, const std::vector<Test>& tests)
  {
    const bool single = type == CollisionEvaluatorType::DISCRETE;
    const bool cast = type == CollisionEvaluatorType::CONTINUOUS || type == CollisionEvaluatorType::LVS_CONTINUOUS;
    const double len = single ? 0.0 : (q1 - q0).norm();
    const double lvs = cfg.collision_check_config.longest_valid_segment_length;
    EXPECT(!tests.empty(), "not-checked", "no contact test was made for " << show(q0));
    auto at = [&](const VectorXd& q) {
      const double t = len > 0 ? (q - q0).dot(q1 - q0) / (len * len) : 0.0;
      EXPECT((q - q0 - t * (q1 - q0)).norm() <= 1e-9 * (1 + q0.norm() + q1.norm()) && t > -1e-9 && t < 1 + 1e-9, "state", "checked at "
                 << show(q) << ", not between " << show(q0) << " and " << show(q1));
      return std::min(1.0, std::max(0.0, t));
    };
    std::vector<std::pair<double, double>> parts;
    for (const auto& t : tests)
    {
      EXPECT(t.problem.empty(), "links", t.problem);
      if (!single && len == 0)
      {
        // nothing moves: a cast is the whole motion, states are taken in order
        (void)at(t.q.front());
        const double i = static_cast<double>(parts.size()), n = static_cast<double>(tests.size());
        cast ? parts.emplace_back(i / n, (i + 1) / n) : parts.emplace_back(i / std::max(1.0, n - 1), i / std::max(1.0, n - 1));
      }
      else
        parts.emplace_back(at(t.q.front()), at(t.q.back()));
    }
    c.event("contact_tests", static_cast<long long>(tests.size()));
    if (single)
      EXPECT(parts.size() == 1, "tests", "one state was checked " << parts.size() << " times");
    else
    {
      std::sort(parts.begin(), parts.end());
      // the motion must be covered, from the first state to the last, by steps no longer than allowed
      EXPECT(len == 0 || parts.front().first < 1e-9, "coverage", "the first state checked is at " << parts.front().first);
      double end = cast ? parts.front().first : 0.0;
      gap = 0;
      for (const auto& p : parts)
      {
        if (cast)
        {
          EXPECT(std::fabs(p.first - end) < 1e-9, "coverage", "the motion from " << end << " to " << p.first << " is not checked once");
          gap = std::max(gap, (p.second - p.first) * len);
        }
        else
          gap = std::max(gap, (p.first - end) * len);
        end = p.second;
      }
      EXPECT(len == 0 || end > 1 - 1e-9, "coverage", "the last state checked is at " << end);
      if (type != CollisionEvaluatorType::CONTINUOUS)
        EXPECT(gap <= lvs * (1 + 1e-9) + 1e-12, "spacing", "states " << gap << " apart were checked, at most " << lvs << " is allowed");
      else if (one_cast)
        EXPECT(parts.size() == 1, "coverage", "one cast expected, " << parts.size() << " made");
      if (parts.size() > (cast ? 1U : 2U))
        c.event("interpolated");
    }
    std::vector<Exp> out;
    const auto active = w->active();
    for (const auto& p : parts)
    {
      const VectorXd qa = q0 + p.first * (single ? VectorXd::Zero(q0.size()) : VectorXd(q1 - q0));
      const VectorXd qb = q0 + p.second * (single ? VectorXd::Zero(q0.size()) : VectorXd(q1 - q0));
      Poses poses;
      for (const auto& s : w->statics)
        poses[s.first] = { s.second, s.second };
      for (const auto& s : w->dynamics)
        poses[s.first] = { s.second, s.second };
      const auto fa = w->robot->fk(qa), fb = w->robot->fk(qb);
      for (std::size_t i = 0; i < fa.size(); ++i)
        poses[w->robot->links[i]] = { fa[i], fb[i] };
      auto all = contacts(w->geo, poses, active, [&](const tc::LinkNamesPair&) { return 1e9; });
      std::map<tc::LinkNamesPair, double> closest;
      for (const auto& k : all)
        if (!closest.count(k.key) || k.distance < closest[k.key])
          closest[k.key] = k.distance;
      for (const auto& k : all)
      {
        if (cfg.collision_check_config.contact_request.type == tcol::ContactTestType::CLOSEST && k.distance != closest[k.key])
          continue;
        Exp e;
        e.k = k;
        e.error = ref.marginOf(k.key) - k.distance;
        e.coeff = ref.coeffOf(k.key);
        if (e.error + ref.buffer < 0 || (ref.coeffs.count(k.key) && e.coeff == 0))
          continue;
        if (e.error + ref.buffer < 1e-7)
          throw mon::AbortCase();  // at the edge of being a contact at all
        bool at0 = true, at1 = true;
        e.j0 = VectorXd::Zero(q0.size());
        e.j1 = VectorXd::Zero(q0.size());
        for (std::size_t i = 0; i < 2; ++i)
        {
          e.active[i] = active.count(k.link[i]) != 0;
          e.T[i] = p.first + (cast ? k.time[i] : 0.0) * (p.second - p.first);
          e.g[i] = VectorXd::Zero(q0.size());
          if (!e.active[i])
            continue;
          // a link which touches while it does not move touches all along
          const bool zero = !single && e.T[i] < 1e-9, one = !single && e.T[i] > 1 - 1e-9;
          at0 = at0 && zero;
          at1 = at1 && one;
          const VectorXd qt = single ? q0 : VectorXd(q0 + e.T[i] * (q1 - q0));
          const MatrixXd J = w->robot->jac(qt, w->robot->index(k.link[i]), k.point[i]);
          e.g[i] = J.topRows(3).transpose() * k.normal * (i == 0 ? -1.0 : 1.0);
          e.j0 -= (single ? 1.0 : 1 - e.T[i]) * e.g[i];
          e.j1 -= (single ? 0.0 : e.T[i]) * e.g[i];
        }
        if ((fix0 && at0) || (fix1 && at1))
        {
          c.event("at_fixed_end");
          continue;
        }
        out.push_back(e);
      }
    }
    return out;
  }
  double tolerance() const
  {
    const bool cast = type == CollisionEvaluatorType::CONTINUOUS || type == CollisionEvaluatorType::LVS_CONTINUOUS;
    // revolute joints: the motion between two states is a line for the contact manager, not for the links
    return (cast && !gantry) ? 1e-7 + 12 * gap : 1e-7;
  }
};
}  // namespace cw
