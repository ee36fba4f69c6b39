// C24: the collision costs and constraints of trajopt (trajopt_sco problems) against a world in which every contact is known exactly.
#include "aux_min.h"
#include "collision_ref.h"
#include <set>
#include <tesseract/visualization/markers/arrow_marker.h>
#include <tesseract/visualization/markers/contact_results_marker.h>
#include <trajopt/collision_terms.hpp>
using namespace scou;
using namespace cw;
namespace tv = tesseract::visualization;
using sco::DblVec;
using trajopt::CollisionExpressionEvaluatorType;
using EvType = CollisionExpressionEvaluatorType;

namespace
{
struct Recorder : tv::Visualization
{
  std::vector<std::pair<Vector3d, Vector3d>> arrows;
  std::vector<tcol::ContactResultVector> results;
  std::vector<std::string> links;
  std::vector<double> margins;
  void plotMarker(const tv::Marker& m, std::string) override
  {
    if (const auto* a = dynamic_cast<const tv::ArrowMarker*>(&m))
      arrows.emplace_back(a->from, a->to);
    if (const auto* a = dynamic_cast<const tv::ContactResultsMarker*>(&m))
    {
      results.push_back(a->dist_results);
      links = a->link_names;
      for (const auto& d : a->dist_results)
        margins.push_back(a->margin_fn(d.link_names[0], d.link_names[1]));
    }
  }
  void plotTrajectory(const tesseract::common::JointTrajectory&, const tesseract::scene_graph::StateSolver&, std::string) override {}
  void clear(std::string) override {}
  void waitForInput(std::string) override {}
};
struct Terms
{
  std::string who;
  std::shared_ptr<trajopt::CollisionCost> cost;
  std::shared_ptr<trajopt::CollisionConstraint> cnt;
  std::shared_ptr<trajopt::CollisionEvaluator> ev;
  std::map<std::vector<double>, std::vector<Test>> seen;
};
/// a linearised contact: coefficient * (value + gradient * change)
struct Line
{
  double coeff, value;
  VectorXd g;
};
double at(const Line& l, const VectorXd& d) { return l.coeff * (l.value + l.g.dot(d)); }

void history(mon::Case& c, CollisionEvaluatorType type)
{
  mon::Rng& r = c.rng;
  const int dof = r.range(1, 4);
  const bool gantry = r.chance(0.5);
  const bool single = type == CollisionEvaluatorType::DISCRETE;
  const bool discrete = type == CollisionEvaluatorType::LVS_DISCRETE;
  const bool dynamic = single && r.chance(0.3);
  auto w = randWorld(r, dof, gantry, dynamic);
  auto env = std::make_shared<Env>(w);
  Expecter k{ c, w, {}, {}, type, gantry };
  k.one_cast = false;
  k.cfg = makeConfig(r, *w, type, k.ref);
  EvType et = EvType::SINGLE_TIME_STEP;
  if (!single)
  {
    const int f = r.range(0, 3);
    k.fix0 = f == 1;
    k.fix1 = f == 2;
    et = k.fix0 ? EvType::START_FIXED_END_FREE : (k.fix1 ? EvType::START_FREE_END_FIXED : EvType::START_FREE_END_FREE);
  }
  RefModel m;
  sco::VarVector all;
  const int steps = r.range(single ? 1 : 2, 3);
  for (int i = 0; i < steps * dof + r.range(0, 2); ++i)
    all.push_back(m.addVar("v" + std::to_string(i)));
  const std::size_t nprob = all.size();
  const int n = static_cast<int>(nprob);
  if (r.chance(0.4))
    r.shuffle(all);
  const int s0 = r.range(0, steps - (single ? 1 : 2));
  auto stepVars = [&](int s) { return sco::VarVector(all.begin() + s * dof, all.begin() + (s + 1) * dof); };
  const sco::VarVector v0 = stepVars(s0), v1 = single ? sco::VarVector() : stepVars(s0 + 1);
  c.trace << (single ? "single" : (discrete ? "lvs-disc" : (type == CollisionEvaluatorType::CONTINUOUS ? "continuous" : "lvs-cont"))) << " dof " << dof
          << (gantry ? " gantry" : "") << (dynamic ? " dynamic" : "") << " fixed " << k.fix0 << k.fix1 << " margin " << k.ref.margin << " buffer " << k.ref.buffer
          << " links " << w->geo.of.size() << ";";
  std::vector<Terms> terms;
  for (int i = r.range(1, 3); i > 0; --i)
  {
    Terms t;
    const int kind = dynamic ? 2 : r.range(0, 2);
    t.who = std::string(single ? "single" : (discrete ? "discrete" : "cast")) + (kind == 0 ? "-cost" : (kind == 1 ? "-constraint" : "-evaluator"));
    if (kind == 0)
      t.cost = single ? std::make_shared<trajopt::CollisionCost>(w->robot, env, k.cfg, v0, et) :
                        std::make_shared<trajopt::CollisionCost>(w->robot, env, k.cfg, v0, v1, et, discrete);
    else if (kind == 1)
      t.cnt = single ? std::make_shared<trajopt::CollisionConstraint>(w->robot, env, k.cfg, v0, et) :
                       std::make_shared<trajopt::CollisionConstraint>(w->robot, env, k.cfg, v0, v1, et, discrete);
    else if (single)
      t.ev = std::make_shared<trajopt::SingleTimestepCollisionEvaluator>(w->robot, env, k.cfg, v0, et, dynamic);
    else if (discrete)
      t.ev = std::make_shared<trajopt::DiscreteCollisionEvaluator>(w->robot, env, k.cfg, v0, v1, et);
    else
      t.ev = std::make_shared<trajopt::CastCollisionEvaluator>(w->robot, env, k.cfg, v0, v1, et);
    const sco::VarVector gv = t.cost ? t.cost->getVars() : (t.cnt ? t.cnt->getVars() : t.ev->GetVars());
    sco::VarVector want = v0;
    want.insert(want.end(), v1.begin(), v1.end());
    bool same = gv.size() == want.size();
    for (std::size_t q = 0; same && q < gv.size(); ++q)
      same = gv[q].var_rep == want[q].var_rep;
    EXPECT(same, "vars:" + t.who, t.who << ": not the variables it was given");
    if (t.cnt)
      EXPECT(t.cnt->type() == sco::INEQ, "type", "not an inequality");
    c.trace << t.who << " ";
    terms.push_back(std::move(t));
  }
  auto get = [&](const DblVec& x, const sco::VarVector& v) {
    VectorXd q(static_cast<Eigen::Index>(v.size()));
    for (std::size_t i = 0; i < v.size(); ++i)
      q(static_cast<Eigen::Index>(i)) = x[v[i].var_rep->index];
    return q;
  };
  std::vector<DblVec> visited;
  std::vector<std::pair<trajopt::ContactResultVectorConstPtr, DblVec>> held;
  for (int s = r.range(2, 6); s > 0; --s)
  {
    DblVec x(nprob);
    if (!visited.empty() && !dynamic && r.chance(0.35))
    {
      x = r.pick(visited);
      c.event("revisited");
    }
    else
    {
      for (auto& v : x)
        v = r.unif(-0.6, 0.6);
      if (!single)
      {
        VectorXd d(dof);
        for (int i = 0; i < dof; ++i)
          d(i) = r.chance(0.2) ? 0.0 : r.unif(-1, 1);
        const double want = r.chance(0.4) ? r.unif(0.0, 0.03) : (r.chance(0.5) ? r.unif(0.03, 0.3) : r.unif(0.3, 1.0));
        if (d.norm() > 1e-9)
          d *= want / d.norm();
        if (r.chance(0.05))
          d.setZero();
        for (int i = 0; i < dof; ++i)
          x[v1[static_cast<std::size_t>(i)].var_rep->index] = x[v0[static_cast<std::size_t>(i)].var_rep->index] + d(i);
        const double ratio = (get(x, v1) - get(x, v0)).norm() / k.cfg.collision_check_config.longest_valid_segment_length;
        if (std::fabs(ratio - std::round(ratio)) < 1e-5 && ratio > 1e-3)
          continue;
      }
      for (auto& d : w->dynamics)
        d.second = randPose(r, 0.5);
      if (!w->dynamics.empty())
        c.event("moved_others");
    }
    visited.push_back(x);
    const VectorXd q0 = get(x, v0), q1 = single ? q0 : get(x, v1);
    r.shuffle(terms);
    for (auto& t : terms)
    {
      w->tests.clear();
      w->robot->log.clear();
      // whichever is asked first checks for contacts, the other may use what was found
      const bool model_first = r.chance(0.5);
      std::vector<double> values, dists;
      double cost = 0;
      std::shared_ptr<sco::ConvexObjective> obj;
      std::shared_ptr<sco::ConvexConstraints> cnts;
      sco::AffExprVector exprs;
      std::vector<double> margins, coeffs;
      for (int q = 0; q < 2; ++q)
        if ((q == 0) == model_first)
        {
          if (t.cost)
            obj = t.cost->convex(x, &m);
          else if (t.cnt)
            cnts = t.cnt->convex(x, &m);
          else
            t.ev->CalcDistExpressions(x, exprs, margins, coeffs);
        }
        else
        {
          if (t.cost)
            cost = t.cost->value(x);
          else if (t.cnt)
            values = t.cnt->value(x);
          else
            t.ev->CalcDists(x, dists);
        }
      std::vector<Test> tests = w->tests;
      if (tests.empty())
      {
        EXPECT(t.seen.count(x), "not-checked:" + t.who, t.who << ": no contact test was made for values never seen before");
        tests = t.seen[x];
        c.event("from_cache");
      }
      else
        t.seen[x] = tests;
      auto exp = k.expected(q0, q1, tests);
      c.event("evaluated");
      c.event("contacts", static_cast<long long>(exp.size()));
      if (exp.empty())
        c.event("no_contact");
      else
        c.note(exp.front().error);
      // what the model must be
      double tol = 1e-6;
      if (!single && !gantry)
        tol += 12 * (q1 - q0).norm();
      std::vector<Line> lines;
      for (const auto& e : exp)
      {
        Line l{ e.coeff, e.error, VectorXd::Zero(n) };
        for (int i = 0; i < dof; ++i)
        {
          if (!k.fix0)
            l.g(static_cast<Eigen::Index>(v0[static_cast<std::size_t>(i)].var_rep->index)) += e.j0(i);
          if (!single && !k.fix1)
            l.g(static_cast<Eigen::Index>(v1[static_cast<std::size_t>(i)].var_rep->index)) += e.j1(i);
        }
        lines.push_back(l);
      }
      VectorXd xv = Eigen::Map<const VectorXd>(x.data(), n);
      auto shown = [&](const std::vector<Line>& got) {
        std::ostringstream o;
        for (const auto& g : got)
          if (o.str().size() < 300)
            o << "; " << g.coeff << " * " << g.value;
        return o.str();
      };
      auto match = [&](const std::vector<Line>& got) {
        EXPECT(got.size() == lines.size(), "rows:" + t.who, t.who << ": " << got.size() << " rows for " << lines.size() << " contacts");
        // each line has a row of its own: a matching, since rows of nearly the same value may be close to several lines
        auto fits = [&](const Line& l, const Line& g) {
          return std::fabs(g.coeff * g.value - l.coeff * l.value) <= 1e-5 * l.coeff + 1e-9 && (g.coeff * g.g - l.coeff * l.g).cwiseAbs().maxCoeff() <= l.coeff * tol + 1e-9;
        };
        std::vector<std::size_t> owner(got.size(), SIZE_MAX);
        for (std::size_t a = 0; a < lines.size(); ++a)
        {
          std::vector<bool> tried(got.size(), false);
          std::function<bool(std::size_t)> place = [&](std::size_t k2) {
            for (std::size_t i = 0; i < got.size(); ++i)
              if (!tried[i] && fits(lines[k2], got[i]))
              {
                tried[i] = true;
                if (owner[i] == SIZE_MAX || place(owner[i]))
                {
                  owner[i] = k2;
                  return true;
                }
              }
            return false;
          };
          if (!place(a))
          {
            const Line& l = lines[a];
            const Line* close = nullptr;
            for (const auto& g : got)
              if (std::fabs(g.coeff * g.value - l.coeff * l.value) <= 1e-5 * l.coeff + 1e-9)
                close = &g;
            EXPECT(close != nullptr, "row-missing:" + t.who, t.who << ": no row is " << l.coeff << " * " << l.value << " where it was linearised" << shown(got));
            EXPECT(false, "derivative:" + t.who, t.who << ": derivative of the row of value " << l.value << " is " << show(close->coeff * close->g) << ", expected "
                                                       << show(l.coeff * l.g) << ", tolerance " << l.coeff * tol);
          }
          c.event("rows");
          if (lines[a].value > 0)
            c.event("violated_rows");
        }
      };
      double want = 0;
      for (const auto& l : lines)
        want += l.coeff * std::max(0.0, l.value);
      if (t.cost)
      {
        c.event("costs");
        EXPECT(std::fabs(cost - want) <= 1e-8 * (1 + want), "value:" + t.who, t.who << ": " << cost << ", not " << want);
        obj->addConstraintsToModel();
        for (int q = 0; q < 3; ++q)
        {
          VectorXd d = VectorXd::Zero(n);
          for (int i = 0; q > 0 && i < n; ++i)
            d(i) = r.unif(-0.2, 0.2);
          double lin = 0, allowed = 1e-6;
          for (const auto& l : lines)
          {
            lin += std::max(0.0, at(l, d));
            allowed += l.coeff * (tol * d.cwiseAbs().sum() + 1e-5);
          }
          DblVec y(x);
          for (int i = 0; i < n; ++i)
            y[static_cast<std::size_t>(i)] += d(i);
          const double g = minOverAux(c, m, *obj, y, nprob);
          EXPECT(std::fabs(g - lin) <= allowed, "convex:" + t.who, t.who << ": convexified " << g << ", expected " << lin << ", tolerance " << allowed
                                                    << (q == 0 ? " where it was linearised" : ""));
        }
      }
      else if (t.cnt)
      {
        c.event("constraints");
        EXPECT(cnts->eqs_.empty(), "type:" + t.who, "equalities");
        std::vector<Line> got;
        for (const auto& a : cnts->ineqs_)
        {
          const Poly p = toPoly(a, n);
          got.push_back({ 1, p.c + p.g.dot(xv), p.g });
        }
        match(got);
        EXPECT(values.size() == got.size(), "sizes:" + t.who, values.size() << " values, " << got.size() << " rows");
        for (std::size_t i = 0; i < values.size(); ++i)
          EXPECT(std::fabs(values[i] - std::max(0.0, got[i].value)) <= 1e-5 * (1 + std::fabs(values[i])), "value:" + t.who, t.who << ": value " << values[i]
                     << ", the row is " << got[i].value);
        double sum = 0;
        for (double v : values)
          sum += v;
        EXPECT(std::fabs(sum - want) <= 1e-8 * (1 + want), "value:" + t.who, t.who << ": values sum to " << sum << ", not " << want);
      }
      else
      {
        c.event("evaluators");
        EXPECT(exprs.size() == margins.size() && exprs.size() == coeffs.size() && dists.size() == exprs.size(), "sizes:" + t.who, "sizes differ");
        const auto found = t.ev->GetContactResultVectorCached(x);
        EXPECT(found->size() == exprs.size(), "sizes:" + t.who, "sizes differ");
        // what was handed out stays, whatever is asked later
        for (const auto& h : held)
        {
          EXPECT(h.first->size() == h.second.size(), "held", "results handed out earlier changed");
          for (std::size_t i = 0; i < h.second.size(); ++i)
            EXPECT((*h.first)[i].get().distance == h.second[i], "held", "results handed out earlier changed");
          c.event("held");
        }
        held.emplace_back(found, dists);
        std::vector<Line> got;
        for (std::size_t i = 0; i < exprs.size(); ++i)
        {
          const Poly p = toPoly(exprs[i], n);
          const double d = p.c + p.g.dot(xv);
          EXPECT(std::fabs(d - dists[i]) < 1e-5 && dists[i] == (*found)[i].get().distance, "value:" + t.who, t.who << ": distance " << dists[i] << ", the expression is " << d);
          const auto key = tc::makeOrderedLinkPair((*found)[i].get().link_names[0], (*found)[i].get().link_names[1]);
          EXPECT(margins[i] == k.ref.marginOf(key) && coeffs[i] == k.ref.coeffOf(key), "data:" + t.who, "margin or coefficient of another pair");
          got.push_back({ coeffs[i], margins[i] - d, -p.g });
        }
        match(got);
        for (const auto& g : k.ref.margins)
          EXPECT(t.ev->getCollisionMarginData().getCollisionMargin(g.first.second, g.first.first) == g.second, "margin-data", "margin of a pair");
        for (const auto& g : k.ref.coeffs)
          EXPECT(t.ev->getCollisionCoeffData().getCollisionCoeff(g.first.second, g.first.first) == g.second, "coeff-data", "coefficient of a pair");
      }
      // shown is what was found
      if (!t.cnt && r.chance(0.3))
      {
        auto rec = std::make_shared<Recorder>();
        t.cost ? t.cost->Plot(rec, x) : t.ev->Plot(rec, x);
        EXPECT(rec->results.size() == 1 && rec->results[0].size() == exp.size(), "plot:" + t.who, "contacts shown are not those found");
        std::multiset<double> a, b;
        for (std::size_t i = 0; i < exp.size(); ++i)
        {
          a.insert(std::round(exp[i].k.distance * 1e7));
          b.insert(std::round(rec->results[0][i].distance * 1e7));
          EXPECT(rec->margins[i] == k.ref.marginOf(tc::makeOrderedLinkPair(rec->results[0][i].link_names[0], rec->results[0][i].link_names[1])), "plot-margin:" + t.who,
                 "margin " << rec->margins[i]);
        }
        // every arrow shows how a touching point of a moving link gets away
        for (const auto& arrow : rec->arrows)
        {
          double best = 1e300;
          for (const auto& e : exp)
            for (std::size_t i = 0; i < 2; ++i)
              if (e.active[i] && (e.k.point[i] - arrow.first).norm() < 1e-6)
              {
                if (!single)
                {
                  best = 0;
                  continue;
                }
                const auto link = w->robot->index(e.k.link[i]);
                const Vector3d local = w->robot->fk(q0)[link].inverse() * e.k.point[i];
                const Vector3d to = w->robot->fk(q0 + e.g[i])[link] * local;
                best = std::min(best, (to - arrow.second).norm());
              }
          EXPECT(best < 1e-6, "plot-arrow:" + t.who, t.who << ": an arrow from " << arrow.first.transpose() << " to " << arrow.second.transpose() << " is no way out of any contact");
          c.event("arrows");
        }
        c.event("plotted");
      }
    }
  }
}
}  // namespace
FAMILY(single, 1200, 40000) { history(c, CollisionEvaluatorType::DISCRETE); }
FAMILY(discrete, 800, 25000) { history(c, CollisionEvaluatorType::LVS_DISCRETE); }
FAMILY(continuous, 400, 12000) { history(c, CollisionEvaluatorType::CONTINUOUS); }
FAMILY(lvs_continuous, 800, 25000) { history(c, CollisionEvaluatorType::LVS_CONTINUOUS); }
FAMILY(refused, 300, 3000)
{
  mon::Rng& r = c.rng;
  auto w = randWorld(r, 2, true, false);
  auto env = std::make_shared<Env>(w);
  RefModel m;
  sco::VarVector a, b;
  for (int i = 0; i < 2; ++i)
    a.push_back(m.addVar("a")), b.push_back(m.addVar("b"));
  const std::vector<CollisionEvaluatorType> types{ CollisionEvaluatorType::NONE, CollisionEvaluatorType::DISCRETE, CollisionEvaluatorType::LVS_DISCRETE,
                                                   CollisionEvaluatorType::CONTINUOUS, CollisionEvaluatorType::LVS_CONTINUOUS };
  const std::vector<EvType> ets{ EvType::START_FREE_END_FREE, EvType::START_FREE_END_FIXED, EvType::START_FIXED_END_FREE, EvType::SINGLE_TIME_STEP };
  auto works = [&](auto make) {
    try
    {
      make();
      return true;
    }
    catch (const std::runtime_error&)
    {
      return false;
    }
  };
  for (std::size_t i = 0; i < types.size(); ++i)
    for (std::size_t e = 0; e < ets.size(); ++e)
    {
      const trajopt_common::TrajOptCollisionConfig cfg(0.1, 1, tcol::ContactRequest(), types[i]);
      const bool s = i == 1 && e == 3, d = i == 2 && e != 3, k = i >= 3 && e != 3;
      EXPECT(works([&] { trajopt::CollisionCost t(w->robot, env, cfg, a, ets[e]); }) == s, "refuse-type", "single timestep cost, type " << i << " " << e);
      EXPECT(works([&] { trajopt::CollisionConstraint t(w->robot, env, cfg, a, ets[e]); }) == s, "refuse-type", "single timestep constraint, type " << i << " " << e);
      EXPECT(works([&] { trajopt::CollisionCost t(w->robot, env, cfg, a, b, ets[e], true); }) == d, "refuse-type", "discrete cost, type " << i << " " << e);
      EXPECT(works([&] { trajopt::CollisionConstraint t(w->robot, env, cfg, a, b, ets[e], true); }) == d, "refuse-type", "discrete constraint, type " << i << " " << e);
      EXPECT(works([&] { trajopt::CollisionCost t(w->robot, env, cfg, a, b, ets[e], false); }) == k, "refuse-type", "cast cost, type " << i << " " << e);
      EXPECT(works([&] { trajopt::CollisionConstraint t(w->robot, env, cfg, a, b, ets[e], false); }) == k, "refuse-type", "cast constraint, type " << i << " " << e);
    }
  c.event("refused", 100);
  c.note(r.range(0, 1000));
}
/// an obstacle moves while the variables keep their values
FAMILY(moving_obstacle, 40, 400)
{
  mon::Rng& r = c.rng;
  auto w = std::make_shared<World>();
  w->robot = std::make_shared<Robot>();
  w->robot->links = { "base", "cart" };
  w->robot->joints.push_back({ false, Isometry3d::Identity(), Vector3d::UnitX() });
  w->geo.of["cart"] = { { 0, -1, { { Vector3d::Zero(), 0.25 } } } };
  w->geo.of["person"] = { { 0, -1, { { Vector3d::Zero(), 0.25 } } } };
  Isometry3d T = Isometry3d::Identity();
  T.translation().x() = r.unif(0.5, 0.7);
  w->dynamics["person"] = T;
  auto env = std::make_shared<Env>(w);
  trajopt_common::TrajOptCollisionConfig cfg(0.2, 1, tcol::ContactRequest(), CollisionEvaluatorType::DISCRETE);
  cfg.collision_margin_buffer = 0.3;
  RefModel m;
  trajopt::SingleTimestepCollisionEvaluator e(w->robot, env, cfg, { m.addVar("q") }, EvType::SINGLE_TIME_STEP, true);
  DblVec d;
  e.CalcDists({ 0.0 }, d);
  EXPECT(d.size() == 1 && std::fabs(d[0] - (T.translation().x() - 0.5)) < 1e-9, "moving-first", d.size() << " distances");
  w->dynamics["person"].translation().x() += 0.1;
  e.CalcDists({ 0.0 }, d);
  c.event("moved_at_rest");
  EXPECT(d.size() == 1 && std::fabs(d[0] - (T.translation().x() + 0.1 - 0.5)) < 1e-9, "stale-when-others-move", "after a moving link moved the distance is still " << d[0]);
}
MON_MAIN
