// C21: the collision constraints of trajopt_ifopt against a world in which every contact is known exactly.
#include "ifopt_util.h"
#include "collision_ref.h"
#include <trajopt_ifopt/constraints/collision/continuous_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_numerical_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_numerical_constraint.h>
using namespace trajopt_ifopt;
using namespace cw;

struct Checker : Expecter
{
  std::vector<Set> sets(const std::vector<Exp>& all)
  {
    std::map<std::pair<tc::LinkNamesPair, std::array<std::pair<int, int>, 2>>, Set> m;
    for (const auto& e : all)
    {
      const std::array<std::pair<int, int>, 2> sh{ std::make_pair(e.k.shape[0], e.k.sub[0]), std::make_pair(e.k.shape[1], e.k.sub[1]) };
      auto& s = m[{ e.k.key, sh }];
      s.key = e.k.key;
      s.shapes = sh;
      s.coeff = e.coeff;
      s.all.push_back(&e);
    }
    const bool single = type == CollisionEvaluatorType::DISCRETE;
    std::vector<Set> out;
    for (auto& p : m)
    {
      Set& s = p.second;
      const auto n = s.all.front()->j0.size();
      double second = -1e300;
      double sum0 = 0, sum1 = 0;
      s.j0 = s.j1 = VectorXd::Zero(n);
      for (const auto* e : s.all)
      {
        if (e->error > s.error)
        {
          second = s.error;
          s.error = e->error;
          s.w0 = e->j0;
          s.w1 = e->j1;
          s.sharp = !e->k.degenerate && (e->k.centre[1] - e->k.centre[0]).norm() > 5e-3;
          // a link which stands still can touch at any time
          if (type == CollisionEvaluatorType::CONTINUOUS || type == CollisionEvaluatorType::LVS_CONTINUOUS)
            for (std::size_t i = 0; i < 2; ++i)
              if (e->active[i] && (e->k.centre1[i] - e->k.centre0[i]).norm() < 1e-6)
                s.sharp = false;
        }
        else
          second = std::max(second, e->error);
        for (std::size_t i = 0; i < 2; ++i)
        {
          if (!e->active[i])
            continue;
          const double wt = e->error + ref.buffer;
          const double T = single ? 0.0 : e->T[i];
          if (single || T < 1 - 1e-9)
          {
            sum0 += wt;
            s.j0 -= wt * (1 - T) * e->g[i];
          }
          if (!single && T > 1e-9)
          {
            sum1 += wt;
            s.j1 -= wt * T * e->g[i];
          }
        }
      }
      if (sum0 > 0)
        s.j0 /= sum0;
      if (sum1 > 0)
        s.j1 /= sum1;
      if (second > s.error - 1e-5)
        s.sharp = false;
      if (s.all.size() > 1)
        c.event("several_contacts");
      out.push_back(s);
    }
    return out;
  }
  void compare(const std::string& who, const std::vector<Row>& want, const VectorXd& values, const VectorXd& coeffs, const MatrixXd& J,
               Eigen::Index i0, Eigen::Index i1, std::size_t rows, bool judge_fixed)
  {
    const Eigen::Index n = want.empty() ? 0 : want.front().j0.size();
    const double tol = tolerance();
    std::vector<bool> used(rows, false);
    for (const auto& r : want)
    {
      std::size_t best = rows;
      double bd = 1e300;
      for (std::size_t i = 0; i < rows; ++i)
      {
        const auto k = static_cast<Eigen::Index>(i);
        if (used[i] || std::fabs(values(k) - r.value) > 1e-8 || std::fabs(coeffs(k) - r.coeff) > 1e-12)
          continue;
        double d = 0;
        if (judge_fixed || !fix0)
          d = std::max(d, (J.row(k).segment(i0, n).transpose() - r.j0).cwiseAbs().maxCoeff());
        if (i1 >= 0 && (judge_fixed || !fix1))
          d = std::max(d, (J.row(k).segment(i1, n).transpose() - r.j1).cwiseAbs().maxCoeff());
        if (d < bd)
        {
          bd = d;
          best = i;
        }
      }
      EXPECT(best < rows, "row-missing:" + who, who << ": no row has value " << r.value << " and coefficient " << r.coeff << "; values "
                              << show(values) << " coefficients " << show(coeffs));
      const auto k = static_cast<Eigen::Index>(best);
      EXPECT(bd <= tol, "derivative:" + who, who << ": derivative of the row of value " << r.value << " is "
                            << show(J.row(k).segment(i0, n).transpose()) << (i1 >= 0 ? " | " + show(J.row(k).segment(i1, n).transpose()) : std::string())
                            << ", expected " << show(r.j0) << " | " << show(r.j1) << ", tolerance " << tol);
      used[best] = true;
      c.event("rows");
      if (r.value > 0)
        c.event("violated_rows");
    }
    for (std::size_t i = 0; i < rows; ++i)
      if (!used[i])
      {
        const auto k = static_cast<Eigen::Index>(i);
        EXPECT(values(k) == -ref.buffer, "unused-row:" + who, who << ": row " << i << " stands for no contact, but its value is " << values(k)
                                             << ", not minus the buffer " << ref.buffer);
        EXPECT(J.row(k).cwiseAbs().maxCoeff() == 0, "unused-row:" + who, who << ": row " << i << " stands for no contact, but has a derivative");
      }
    // no other variable has any influence
    MatrixXd rest = J;
    if (n > 0)
    {
      rest.middleCols(i0, n).setZero();
      if (i1 >= 0)
        rest.middleCols(i1, n).setZero();
      EXPECT(rest.size() == 0 || rest.cwiseAbs().maxCoeff() == 0, "other-columns:" + who, who << ": variables of others have an influence");
      if (judge_fixed)
      {
        if (fix0)
          EXPECT(J.middleCols(i0, n).cwiseAbs().maxCoeff() == 0, "fixed-columns:" + who, who << ": the fixed first state has a derivative");
        if (fix1 && i1 >= 0)
          EXPECT(J.middleCols(i1, n).cwiseAbs().maxCoeff() == 0, "fixed-columns:" + who, who << ": the fixed second state has a derivative");
      }
    }
  }
  void constraintD(const std::string& who, ConstraintSet& con, std::vector<Exp>& all, Eigen::Index i0, Eigen::Index i1)
  {
    std::vector<Row> want;
    for (auto& e : all)
      want.push_back({ e.error, e.coeff, fix0 ? VectorXd::Zero(e.j0.size()) : e.j0, fix1 ? VectorXd::Zero(e.j0.size()) : e.j1 });
    EXPECT(con.getRows() == static_cast<int>(want.size()), "rows:" + who, who << ": " << con.getRows() << " rows for " << want.size() << " contacts");
    const VectorXd v = con.getValues(), k = con.getCoefficients();
    const Jacobian js = con.getJacobian();
    const auto b = con.getBounds();
    const auto n = static_cast<Eigen::Index>(want.size());
    EXPECT(v.size() == n && k.size() == n && js.rows() == n && b.size() == want.size(), "sizes:" + who, who << ": sizes differ");
    for (const auto& x : b)
      EXPECT(x.getUpper() == 0 && x.getLower() == -INFINITY, "bounds:" + who, who << ": bounds [" << x.getLower() << ", " << x.getUpper() << "]");
    compare(who, want, v, k, MatrixXd(js), i0, i1, want.size(), true);
    EXPECT(con.getNonZeros() >= js.nonZeros(), "nonzeros:" + who, who << ": more non-zeros than announced");
  }
  /// `pattern`: the places stored in the derivative, the same for ever with fixed sparsity
  void constraintFixed(const std::string& who, ConstraintSet& con, std::vector<Set> all, int max_cnt, bool numeric, Eigen::Index i0, Eigen::Index i1,
                       const std::vector<Bounds>& bounds, std::set<std::pair<int, int>>* pattern)
  {
    std::stable_sort(all.begin(), all.end(), [](const Set& a, const Set& b) { return a.error > b.error; });
    const auto m = static_cast<std::size_t>(max_cnt);
    if (all.size() > m)
    {
      if (all[m - 1].error - all[m].error < 1e-8)
        return;
      all.resize(m);
      c.event("worst_kept");
    }
    EXPECT(con.getRows() == max_cnt, "rows:" + who, who << ": " << con.getRows() << " rows, " << max_cnt << " asked for");
    const VectorXd v = con.getValues(), k = con.getCoefficients();
    const Jacobian js = con.getJacobian();
    const auto b = con.getBounds();
    EXPECT(v.size() == max_cnt && k.size() == max_cnt && js.rows() == max_cnt && b.size() == m, "sizes:" + who, who << ": sizes differ");
    for (std::size_t i = 0; i < m; ++i)
      EXPECT(b[i].getUpper() == bounds[i].getUpper() && b[i].getLower() == bounds[i].getLower(), "bounds:" + who, who << ": bounds ["
                 << b[i].getLower() << ", " << b[i].getUpper() << "]");
    if (pattern != nullptr)
    {
      std::set<std::pair<int, int>> now;
      for (int o = 0; o < js.outerSize(); ++o)
        for (Jacobian::InnerIterator it(js, o); it; ++it)
          now.insert({ static_cast<int>(it.row()), static_cast<int>(it.col()) });
      if (pattern->empty())
        *pattern = now;
      EXPECT(now == *pattern, "sparsity:" + who, who << ": the places of the derivative changed, although they should be fixed");
    }
    std::vector<Row> want;
    bool blunt = false;
    for (const auto& s : all)
    {
      if (numeric)
      {
        if (!s.sharp)
          blunt = true;
        want.push_back({ s.error, s.coeff, s.w0, s.w1 });
      }
      else
        want.push_back({ s.error, s.coeff, fix0 ? VectorXd::Zero(s.j0.size()) : s.j0, fix1 ? VectorXd::Zero(s.j0.size()) : s.j1 });
    }
    const MatrixXd J(js);
    if (!numeric)
      compare(who, want, v, k, J, i0, i1, m, true);
    else if (blunt)
    {
      // several contacts are the worst: only the values are determined
      std::vector<double> a, e;
      for (Eigen::Index i = 0; i < v.size(); ++i)
        a.push_back(v(i));
      for (const auto& r : want)
        e.push_back(r.value);
      e.resize(m, -ref.buffer);
      std::sort(a.begin(), a.end());
      std::sort(e.begin(), e.end());
      for (std::size_t i = 0; i < m; ++i)
        EXPECT(std::fabs(a[i] - e[i]) < 1e-8, "value:" + who, who << ": value " << a[i] << ", expected " << e[i]);
    }
    else
    {
      compareNumeric(who, want, v, k, J, i0, i1, m);
      c.event("numeric");
    }
  }
  void compareNumeric(const std::string& who, const std::vector<Row>& want, const VectorXd& v, const VectorXd& k, const MatrixXd& J, Eigen::Index i0,
                      Eigen::Index i1, std::size_t rows)
  {
    // differences over 1e-8
    compareWith(who, want, v, k, J, i0, i1, rows, tolerance() + 1e-4);
  }
  void compareWith(const std::string& who, const std::vector<Row>& want, const VectorXd& values, const VectorXd& coeffs, const MatrixXd& J, Eigen::Index i0,
                   Eigen::Index i1, std::size_t rows, double tol)
  {
    std::vector<bool> used(rows, false);
    for (const auto& r : want)
    {
      const Eigen::Index n = r.j0.size();
      std::size_t best = rows;
      double bd = 1e300;
      for (std::size_t i = 0; i < rows; ++i)
      {
        const auto q = static_cast<Eigen::Index>(i);
        if (used[i] || std::fabs(values(q) - r.value) > 1e-8 || std::fabs(coeffs(q) - r.coeff) > 1e-12)
          continue;
        double d = 0;
        if (!fix0)
          d = std::max(d, (J.row(q).segment(i0, n).transpose() - r.j0).cwiseAbs().maxCoeff());
        if (i1 >= 0 && !fix1)
          d = std::max(d, (J.row(q).segment(i1, n).transpose() - r.j1).cwiseAbs().maxCoeff());
        if (d < bd)
        {
          bd = d;
          best = i;
        }
      }
      EXPECT(best < rows, "row-missing:" + who, who << ": no row has value " << r.value << " and coefficient " << r.coeff << "; values "
                              << show(values) << " coefficients " << show(coeffs));
      const auto q = static_cast<Eigen::Index>(best);
      EXPECT(bd <= tol, "derivative:" + who, who << ": differences for the row of value " << r.value << " are "
                            << show(J.row(q).segment(i0, n).transpose()) << (i1 >= 0 ? " | " + show(J.row(q).segment(i1, n).transpose()) : std::string())
                            << ", expected " << show(r.j0) << " | " << show(r.j1) << ", tolerance " << tol);
      used[best] = true;
      c.event("rows");
    }
    for (std::size_t i = 0; i < rows; ++i)
      if (!used[i])
        EXPECT(values(static_cast<Eigen::Index>(i)) == -ref.buffer, "unused-row:" + who, who << ": row " << i << " stands for no contact, but its value is "
                   << values(static_cast<Eigen::Index>(i)));
  }
};

struct Held
{
  std::shared_ptr<ConstraintSet> con;
  std::string who;
  int kind;  ///< 0: a row per contact, 1: a fixed number of rows, 2: the same with differences
  int max_cnt;
  bool sparse;
  std::set<std::pair<int, int>> pattern;
  std::vector<Bounds> bounds;
  std::map<std::vector<double>, std::vector<Test>> seen;
  std::size_t eval;
};
static std::vector<double> vec(const VectorXd& v) { return { v.data(), v.data() + v.size() }; }

static void history(mon::Case& c, CollisionEvaluatorType type)
{
  mon::Rng& r = c.rng;
  const int dof = r.range(1, 4);
  const bool gantry = r.chance(0.5);
  const bool dynamic = r.chance(0.35);
  auto w = randWorld(r, dof, gantry, dynamic);
  auto env = std::make_shared<Env>(w);
  const bool single = type == CollisionEvaluatorType::DISCRETE;
  Checker k{ { c, w, {}, {}, type, gantry } };
  k.cfg = makeConfig(r, *w, type, k.ref);
  if (!single)
  {
    const int f = r.range(0, 3);
    k.fix0 = f == 1;
    k.fix1 = f == 2;
  }
  const int nodes = single ? r.range(1, 2) : r.range(2, 3);
  auto vars = ifo::randVars(c, nodes, dof, false);
  const auto n0 = static_cast<std::size_t>(single ? r.range(0, nodes - 1) : r.range(0, nodes - 2));
  const std::size_t n1 = n0 + 1;
  const Eigen::Index i0 = vars.joint_index[n0], i1 = single ? -1 : vars.joint_index[n1];
  c.trace << (single ? "single" : (type == CollisionEvaluatorType::CONTINUOUS ? "continuous" : (type == CollisionEvaluatorType::LVS_CONTINUOUS ? "lvs-cont" : "lvs-disc")))
          << " dof " << dof << (gantry ? " gantry" : "") << (dynamic ? " dynamic" : "") << " fixed " << k.fix0 << k.fix1 << " margin " << k.ref.margin << " buffer " << k.ref.buffer
          << " links " << w->geo.of.size() << ";";
  // one or two evaluators, shared by the constraints
  std::vector<std::shared_ptr<DiscreteCollisionEvaluator>> de;
  std::vector<std::shared_ptr<ContinuousCollisionEvaluator>> ce;
  const int ne = r.range(1, 2);
  for (int i = 0; i < ne; ++i)
  {
    const bool dyn = !w->dynamics.empty() || (dynamic && r.chance(0.5));
    if (single)
      de.push_back(std::make_shared<SingleTimestepCollisionEvaluator>(w->robot, env, k.cfg, dyn));
    else if (type == CollisionEvaluatorType::LVS_DISCRETE)
      ce.push_back(std::make_shared<LVSDiscreteCollisionEvaluator>(w->robot, env, k.cfg, dyn));
    else
      ce.push_back(std::make_shared<LVSContinuousCollisionEvaluator>(w->robot, env, k.cfg, dyn));
  }
  std::vector<Held> cons;
  for (int i = r.range(1, 4); i > 0; --i)
  {
    Held h;
    h.kind = r.range(0, 2);
    h.max_cnt = r.range(1, 5);
    h.sparse = r.chance(0.4);
    h.eval = static_cast<std::size_t>(r.range(0, ne - 1));
    const auto& v0 = vars.joints[n0];
    if (single)
    {
      const auto& e = de[h.eval];
      if (h.kind == 0)
        h.con = std::make_shared<DiscreteCollisionConstraintD>(e, v0);
      else if (h.kind == 1)
        h.con = std::make_shared<DiscreteCollisionConstraint>(e, v0, h.max_cnt, h.sparse);
      else
        h.con = std::make_shared<DiscreteCollisionNumericalConstraint>(e, v0, h.max_cnt, h.sparse);
    }
    else
    {
      const auto& e = ce[h.eval];
      const std::array<std::shared_ptr<const Var>, 2> vv{ v0, vars.joints[n1] };
      if (h.kind == 0)
        h.con = std::make_shared<ContinuousCollisionConstraintD>(e, vv, k.fix0, k.fix1);
      else if (h.kind == 1)
        h.con = std::make_shared<ContinuousCollisionConstraint>(e, vv, k.fix0, k.fix1, h.max_cnt, h.sparse);
      else
        h.con = std::make_shared<ContinuousCollisionNumericalConstraint>(e, vv, k.fix0, k.fix1, h.max_cnt, h.sparse);
    }
    h.who = std::string(single ? "discrete" : "continuous") + (h.kind == 0 ? "D" : (h.kind == 1 ? "" : "Numerical"));
    h.bounds.assign(static_cast<std::size_t>(h.max_cnt), BoundSmallerZero);
    h.con->linkWithVariables(vars.nv);
    if (h.kind != 0 && r.chance(0.3))
    {
      h.bounds.clear();
      for (int b = 0; b < h.max_cnt; ++b)
        h.bounds.push_back(ifo::randBounds(r));
      if (auto* p = dynamic_cast<DiscreteCollisionConstraint*>(h.con.get()))
        p->setBounds(h.bounds);
      if (auto* p = dynamic_cast<DiscreteCollisionNumericalConstraint*>(h.con.get()))
        p->setBounds(h.bounds);
      if (auto* p = dynamic_cast<ContinuousCollisionConstraint*>(h.con.get()))
        p->setBounds(h.bounds);
      if (auto* p = dynamic_cast<ContinuousCollisionNumericalConstraint*>(h.con.get()))
        p->setBounds(h.bounds);
      c.event("bounds_set");
    }
    c.trace << h.who << "(" << h.max_cnt << (h.sparse ? ",fixed sparsity" : "") << ") ";
    cons.push_back(std::move(h));
  }
  std::vector<VectorXd> visited;
  const int steps = r.range(2, 7);
  for (int s = 0; s < steps; ++s)
  {
    VectorXd x = vars.nv->getValues();
    if (!visited.empty() && w->dynamics.empty() && r.chance(0.35))
    {
      x = r.pick(visited);
      c.event("revisited");
    }
    else
    {
      for (Eigen::Index i = 0; i < x.size(); ++i)
        x(i) = r.unif(-0.6, 0.6);
      if (!single)
      {
        VectorXd d(dof);
        for (int i = 0; i < dof; ++i)
          d(i) = r.chance(0.2) ? 0.0 : r.unif(-1, 1);
        const double want = r.chance(0.3) ? r.unif(0.0, 0.03) : (r.chance(0.5) ? r.unif(0.03, 0.3) : r.unif(0.3, 1.0));
        if (d.norm() > 1e-9)
          d *= want / d.norm();
        if (r.chance(0.05))
          d.setZero();
        x.segment(i1, dof) = x.segment(i0, dof) + d;
        // the number of steps must not depend on the last digit
        const double ratio = (x.segment(i1, dof) - x.segment(i0, dof)).norm() / k.cfg.collision_check_config.longest_valid_segment_length;
        if (std::fabs(ratio - std::round(ratio)) < 1e-5 && ratio > 1e-3)
          continue;
      }
      for (auto& d : w->dynamics)
        d.second = randPose(r, 0.5);
      if (!w->dynamics.empty())
        c.event("moved_others");
    }
    visited.push_back(x);
    vars.nv->setVariables(x);
    const VectorXd q0 = x.segment(i0, dof), q1 = single ? q0 : VectorXd(x.segment(i1, dof));
    r.shuffle(cons);
    for (auto& h : cons)
    {
      w->tests.clear();
      w->robot->log.clear();
      const int rows = h.con->update();
      EXPECT(rows == h.con->getRows(), "update:" + h.who, h.who << ": update() says " << rows << " rows, getRows() " << h.con->getRows());
      std::vector<Test> tests = w->tests;
      const auto key = vec(x);
      if (tests.empty())
      {
        EXPECT(h.seen.count(key), "not-checked:" + h.who, h.who << ": no contact test was made for values never seen before");
        tests = h.seen[key];
        c.event("from_cache");
      }
      else
        h.seen[key] = tests;
      auto all = k.expected(q0, q1, tests);
      c.event("evaluated");
      c.event("contacts", static_cast<long long>(all.size()));
      if (all.empty())
        c.event("no_contact");
      else
        c.note(all.front().error);
      if (h.kind == 0)
        k.constraintD(h.who, *h.con, all, i0, i1);
      else
        k.constraintFixed(h.who, *h.con, k.sets(all), h.max_cnt, h.kind == 2, i0, i1, h.bounds, h.sparse ? &h.pattern : nullptr);
      // looking changes nothing
      const VectorXd v1 = h.con->getValues();
      (void)h.con->getJacobian();
      EXPECT((v1 - h.con->getValues()).size() == 0 || (v1 - h.con->getValues()).cwiseAbs().maxCoeff() == 0, "observe:" + h.who, h.who << ": values changed by looking");
    }
  }
}
FAMILY(discrete, 1200, 40000) { history(c, CollisionEvaluatorType::DISCRETE); }
FAMILY(continuous, 600, 20000) { history(c, CollisionEvaluatorType::CONTINUOUS); }
FAMILY(lvs_continuous, 600, 20000) { history(c, CollisionEvaluatorType::LVS_CONTINUOUS); }
FAMILY(lvs_discrete, 600, 20000) { history(c, CollisionEvaluatorType::LVS_DISCRETE); }

static std::shared_ptr<Robot> slider()
{
  auto rb = std::make_shared<Robot>();
  rb->links = { "base", "cart" };
  rb->joints.push_back({ false, Isometry3d::Identity(), Vector3d::UnitX() });
  return rb;
}
/// contacts which are exactly at the end of the margin and its buffer
FAMILY(edge, 200, 2000)
{
  mon::Rng& r = c.rng;
  auto w = std::make_shared<World>();
  w->robot = slider();
  const bool first = r.chance(0.5);
  const std::string wall = first ? "a_wall" : "wall";
  w->geo.of["cart"] = { { 0, -1, { { Vector3d::Zero(), 0.25 } } } };
  w->geo.of[wall] = { { 0, -1, { { Vector3d::Zero(), 0.25 } } } };
  Isometry3d T = Isometry3d::Identity();
  T.translation().x() = 1;
  w->statics[wall] = T;
  auto env = std::make_shared<Env>(w);
  const int ty = r.range(0, 3);
  const CollisionEvaluatorType type = std::vector<CollisionEvaluatorType>{ CollisionEvaluatorType::DISCRETE, CollisionEvaluatorType::LVS_DISCRETE,
                                                                          CollisionEvaluatorType::CONTINUOUS, CollisionEvaluatorType::LVS_CONTINUOUS }[static_cast<std::size_t>(ty)];
  const double margin = 0.125 * r.range(0, 2), buffer = 0.125 * r.range(0, 2);
  const double at = 1 - 0.5 - margin - buffer;
  trajopt_common::TrajOptCollisionConfig cfg(margin, 1, tcol::ContactRequest(), type, 0.25);
  cfg.collision_margin_buffer = buffer;
  auto vars = ifo::randVars(c, 2, 1, false);
  VectorXd x = vars.nv->getValues();
  x(vars.joint_index[0]) = at - 0.125 * r.range(0, 4);
  x(vars.joint_index[1]) = at;
  vars.nv->setVariables(x);
  std::vector<std::shared_ptr<ConstraintSet>> cons;
  if (ty == 0)
  {
    auto e = std::make_shared<SingleTimestepCollisionEvaluator>(w->robot, env, cfg);
    cons = { std::make_shared<DiscreteCollisionConstraint>(e, vars.joints[1], 2), std::make_shared<DiscreteCollisionConstraintD>(e, vars.joints[1]),
             std::make_shared<DiscreteCollisionNumericalConstraint>(e, vars.joints[1], 2) };
  }
  else
  {
    std::shared_ptr<ContinuousCollisionEvaluator> e;
    if (ty == 1)
      e = std::make_shared<LVSDiscreteCollisionEvaluator>(w->robot, env, cfg);
    else
      e = std::make_shared<LVSContinuousCollisionEvaluator>(w->robot, env, cfg);
    const std::array<std::shared_ptr<const Var>, 2> v{ vars.joints[0], vars.joints[1] };
    const bool f0 = r.chance(0.3);
    cons = { std::make_shared<ContinuousCollisionConstraint>(e, v, f0, false, 2), std::make_shared<ContinuousCollisionConstraintD>(e, v, f0, false),
             std::make_shared<ContinuousCollisionNumericalConstraint>(e, v, f0, false, 2) };
  }
  c.trace << "type " << ty << " margin " << margin << " buffer " << buffer << " from " << x(vars.joint_index[0]) << " to " << at;
  for (auto& con : cons)
  {
    con->linkWithVariables(vars.nv);
    con->update();
    const VectorXd v = con->getValues();
    for (Eigen::Index i = 0; i < v.size(); ++i)
      EXPECT(v(i) == -buffer, "edge-value", "value " << v(i) << " of a contact at the edge, expected " << -buffer);
    const MatrixXd J(con->getJacobian());
    EXPECT(J.allFinite(), "edge-derivative", "the derivative of a contact at the edge is not finite");
    EXPECT(J.size() == 0 || (J.maxCoeff() <= 1 + 1e-6 && J.minCoeff() >= -1e-6), "edge-derivative", "derivative " << J);
    c.event("edge");
    c.note(v.size());
  }
}
FAMILY(refused, 300, 3000)
{
  mon::Rng& r = c.rng;
  auto w = randWorld(r, 2, true, false);
  auto env = std::make_shared<Env>(w);
  auto cfg = [&](CollisionEvaluatorType t) { return trajopt_common::TrajOptCollisionConfig(0.1, 1, tcol::ContactRequest(), t); };
  const std::vector<CollisionEvaluatorType> types{ CollisionEvaluatorType::NONE, CollisionEvaluatorType::DISCRETE, CollisionEvaluatorType::LVS_DISCRETE,
                                                   CollisionEvaluatorType::CONTINUOUS, CollisionEvaluatorType::LVS_CONTINUOUS };
  for (std::size_t i = 0; i < types.size(); ++i)
  {
    auto works = [&](auto make) {
      try
      {
        make();
        return true;
      }
      catch (const std::runtime_error&)
      {
        return false;
      }
    };
    EXPECT(works([&] { SingleTimestepCollisionEvaluator e(w->robot, env, cfg(types[i])); }) == (i == 1), "refuse-type", "single timestep evaluator, type " << i);
    EXPECT(works([&] { LVSDiscreteCollisionEvaluator e(w->robot, env, cfg(types[i])); }) == (i == 2), "refuse-type", "discrete evaluator, type " << i);
    EXPECT(works([&] { LVSContinuousCollisionEvaluator e(w->robot, env, cfg(types[i])); }) == (i >= 3), "refuse-type", "continuous evaluator, type " << i);
  }
  auto de = std::make_shared<SingleTimestepCollisionEvaluator>(w->robot, env, cfg(types[1]));
  auto ce = std::make_shared<LVSDiscreteCollisionEvaluator>(w->robot, env, cfg(types[2]));
  auto vars = ifo::randVars(c, 2, 2, false);
  auto other = ifo::randVars(c, 1, 3, false);
  using VV = std::array<std::shared_ptr<const Var>, 2>;
  const VV good{ vars.joints[0], vars.joints[1] }, none1{ vars.joints[0], nullptr }, none0{ nullptr, vars.joints[1] }, none{ nullptr, nullptr },
      sizes{ vars.joints[0], other.joints[0] };
  const int n = r.range(-2, 0);
  EXPECT_THROW_STD(DiscreteCollisionConstraint(de, vars.joints[0], n), "refuse-count", "max_num_cnt " << n << " accepted");
  EXPECT_THROW_STD(DiscreteCollisionNumericalConstraint(de, vars.joints[0], n), "refuse-count", "max_num_cnt " << n << " accepted");
  EXPECT_THROW_STD(ContinuousCollisionConstraint(ce, good, false, false, n), "refuse-count", "max_num_cnt " << n << " accepted");
  EXPECT_THROW_STD(ContinuousCollisionNumericalConstraint(ce, good, false, false, n), "refuse-count", "max_num_cnt " << n << " accepted");
  for (const auto& v : { none1, none0, none, sizes })
  {
    EXPECT_THROW_STD(ContinuousCollisionConstraint(ce, v, false, false, 1), "refuse-vars", "bad variables accepted");
    EXPECT_THROW_STD(ContinuousCollisionConstraintD(ce, v, false, false), "refuse-vars", "bad variables accepted");
    EXPECT_THROW_STD(ContinuousCollisionNumericalConstraint(ce, v, false, false, 1), "refuse-vars", "bad variables accepted");
  }
  EXPECT_THROW_STD(ContinuousCollisionConstraint(ce, good, true, true, 1), "refuse-fixed", "two fixed ends accepted");
  EXPECT_THROW_STD(ContinuousCollisionConstraintD(ce, good, true, true), "refuse-fixed", "two fixed ends accepted");
  EXPECT_THROW_STD(ContinuousCollisionNumericalConstraint(ce, good, true, true, 1), "refuse-fixed", "two fixed ends accepted");
  c.event("refused", 20);
  c.note(n);
}
/// an obstacle moves while the variables keep their values
FAMILY(moving_obstacle, 40, 400)
{
  mon::Rng& r = c.rng;
  auto w = std::make_shared<World>();
  w->robot = slider();
  w->geo.of["cart"] = { { 0, -1, { { Vector3d::Zero(), 0.25 } } } };
  w->geo.of["person"] = { { 0, -1, { { Vector3d::Zero(), 0.25 } } } };
  Isometry3d T = Isometry3d::Identity();
  T.translation().x() = r.unif(0.5, 0.7);
  w->dynamics["person"] = T;
  auto env = std::make_shared<Env>(w);
  trajopt_common::TrajOptCollisionConfig cfg(0.2, 1, tcol::ContactRequest(), CollisionEvaluatorType::DISCRETE);
  cfg.collision_margin_buffer = 0.3;
  auto vars = ifo::randVars(c, 1, 1, false);
  VectorXd x = vars.nv->getValues();
  x(vars.joint_index[0]) = 0;
  vars.nv->setVariables(x);
  DiscreteCollisionConstraint con(std::make_shared<SingleTimestepCollisionEvaluator>(w->robot, env, cfg, true), vars.joints[0], 1);
  con.linkWithVariables(vars.nv);
  con.update();
  const double a = con.getValues()(0);
  EXPECT(std::fabs(a - (0.2 - (T.translation().x() - 0.5))) < 1e-9, "moving-first", "value " << a);
  w->dynamics["person"].translation().x() += 0.1;
  con.update();
  const double b = con.getValues()(0);
  c.event("moved_at_rest");
  EXPECT(std::fabs(b - (0.2 - (T.translation().x() + 0.1 - 0.5))) < 1e-9, "stale-when-others-move", "after a moving link moved the value is still " << b);
}
MON_MAIN
