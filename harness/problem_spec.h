// Descriptions of trajectory optimisation problems for trajopt, each with the problem it describes, written out.
#pragma once
#include "collision_ref.h"
#include "pose_util.h"
#include <console_bridge/console.h>
#include <json/json.h>
#include <set>
#include <trajopt/collision_terms.hpp>
#include <trajopt/kinematic_terms.hpp>
#include <trajopt/problem_description.hpp>
#include <trajopt/utils.hpp>
#include <trajopt_sco/osqp_interface.hpp>
#include <trajopt_sco/qpoases_interface.hpp>
namespace ps
{
using namespace cw;
using sco::DblVec;
using trajopt::TermInfo;
using trajopt::TermType;
using trajopt::TrajArray;
/// a cost or constraint there must be
struct Want
{
  std::string kind;
  bool cost;
  bool eq;  ///< constraints only
  std::vector<std::string> names;  ///< any of these
  std::function<DblVec(const TrajArray&)> value;  ///< value of the cost, or violation of the constraint: any of these
  std::set<std::pair<int, int>> cells;  ///< variables it may depend on
};
struct Quiet
{
  Quiet()
  {
    std::cerr.setstate(std::ios::failbit);
    std::cout.setstate(std::ios::failbit);
    console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE);
  }
  ~Quiet()
  {
    std::cerr.clear();
    std::cout.clear();
  }
};
struct Term
{
  std::string type;
  bool cost{ true }, use_time{ false }, json{ true };
  std::string name;                       ///< empty: not given
  Json::Value params{ Json::objectValue };
  std::shared_ptr<TermInfo> direct;       ///< the same without JSON
  std::vector<Want> exp;
  std::string title() const { return name.empty() ? type : name; }
};
struct Spec
{
  std::shared_ptr<World> w;
  std::shared_ptr<Env> env;
  int n{ 2 }, dof{ 1 };
  bool use_time{ false }, basic_time{ false }, give_dt{ false };
  double dt_lo{ 1 }, dt_hi{ 1 }, dt{ 1 };
  std::vector<int> fixed_steps, fixed_dofs;
  int init{ 0 };
  TrajArray data;  ///< given trajectory
  VectorXd end, start;
  std::string solver;
  std::vector<Term> costs, cnts;
  std::vector<double> lo, hi;

  std::set<std::pair<int, int>> cells(int first, int last) const
  {
    std::set<std::pair<int, int>> s;
    for (int i = first; i <= last; ++i)
      for (int j = 0; j < dof; ++j)
        s.insert({ i, j });
    return s;
  }
  VectorXd row(const TrajArray& t, int s) const { return t.row(s).head(dof).transpose(); }
};
inline Json::Value arr(const std::vector<double>& v)
{
  Json::Value a(Json::arrayValue);
  for (double d : v)
    a.append(d);
  return a;
}
inline Json::Value arr(const std::vector<int>& v)
{
  Json::Value a(Json::arrayValue);
  for (int d : v)
    a.append(d);
  return a;
}
inline Json::Value arr(const Vector3d& v) { return arr(std::vector<double>{ v(0), v(1), v(2) }); }
inline Json::Value quat(const Isometry3d& T)
{
  const Eigen::Quaterniond q(T.linear());
  return arr(std::vector<double>{ q.w(), q.x(), q.y(), q.z() });
}
inline double pos(double v) { return std::max(0.0, v); }
template <class T>
T& make(Term& t)
{
  auto p = std::make_shared<T>();
  t.direct = p;
  return *p;
}

/// joint position, velocity (also with time), acceleration and jerk
inline Term jointTerm(mon::Rng& r, const Spec& s, int order, bool cost, bool use_time)
{
  static const char* types[] = { "joint_pos", "joint_vel", "joint_acc", "joint_jerk" };
  Term t;
  t.type = types[order];
  t.cost = cost;
  t.use_time = use_time;
  const auto dof = static_cast<std::size_t>(s.dof);
  auto vec = [&](double lo, double hi, bool optional, double def, const char* key, std::vector<double>& full) {
    std::vector<double> v;
    if (!(optional && r.chance(0.3)))
      v.resize(r.chance(0.3) ? 1 : dof);
    for (auto& d : v)
      d = r.chance(0.1) ? def : r.unif(lo, hi);
    if (!v.empty())
      t.params[key] = arr(v);
    full = v.empty() ? std::vector<double>(dof, def) : (v.size() == 1 ? std::vector<double>(dof, v[0]) : v);
    return v;
  };
  std::vector<double> target, coeff, upper, lower;
  const auto tv = vec(-1, 1, false, 0, "targets", target);
  const auto cv = vec(0.1, 5, true, 1, "coeffs", coeff);
  std::vector<double> uv, lv;
  const bool tol = r.chance(0.5);
  if (tol)
  {
    uv = vec(0, 0.5, true, 0, "upper_tols", upper);
    lv = vec(-0.5, 0, true, 0, "lower_tols", lower);
  }
  else
  {
    upper = lower = std::vector<double>(dof, 0.0);
    if (r.chance(0.3))
    {
      uv = lv = upper;
      t.params["upper_tols"] = t.params["lower_tols"] = arr(upper);
    }
  }
  bool eq = true;
  for (std::size_t j = 0; j < dof; ++j)
    eq = eq && std::fabs(upper[j]) < 1e-12 && std::fabs(lower[j]) < 1e-12;
  // the steps: given, left out, beyond the end, a single one, or in the wrong order
  int first = 0, last = s.n - 1;
  int gf = 0, gl = -1;
  switch (r.range(0, 5))
  {
    case 0: break;
    case 1:
      first = gf = r.range(0, s.n - 1 - order);
      t.params["first_step"] = gf;
      break;
    case 2:  // a single step, up to where the derivative begins before the end
      first = gf = gl = r.range(0, s.n - 1 - order);
      last = first + order;
      t.params["first_step"] = gf;
      t.params["last_step"] = gl;
      break;
    case 3:  // the last step(s), or beyond
      first = s.n - 1 - order;
      gf = r.range(first, s.n - 1 + (r.chance(0.3) ? 3 : 0));
      gl = s.n - 1 + (r.chance(0.5) ? r.range(0, 3) : 0);
      if (order == 0)
        first = std::min(gf, s.n - 1);
      t.params["first_step"] = gf;
      t.params["last_step"] = gl;
      break;
    case 4:
      first = gf = r.range(0, s.n - 1 - order);
      last = gl = r.range(first + order, s.n - 1);
      t.params["first_step"] = gf;
      t.params["last_step"] = gl;
      break;
    default:  // reversed
      first = r.range(0, s.n - 1 - order);
      last = r.range(first + order, s.n - 1);
      if (last > s.n - 1 - order)
        last = s.n - 1 - order;
      if (last - first < order || last == first)
      {
        first = 0;
        last = s.n - 1;
        break;
      }
      gf = last;
      gl = first;
      t.params["first_step"] = gf;
      t.params["last_step"] = gl;
  }
  auto fill = [&](auto& i) {
    i.targets = tv;
    i.coeffs = cv;
    i.upper_tols = uv;
    i.lower_tols = lv;
    i.first_step = gf;
    i.last_step = gl;
  };
  switch (order)
  {
    case 0: fill(make<trajopt::JointPosTermInfo>(t)); break;
    case 1: fill(make<trajopt::JointVelTermInfo>(t)); break;
    case 2: fill(make<trajopt::JointAccTermInfo>(t)); break;
    default: fill(make<trajopt::JointJerkTermInfo>(t)); break;
  }
  if (order == 1 && use_time)
  {
    for (std::size_t j = 0; j < dof; ++j)
    {
      Want e;
      e.kind = t.type + "-time" + (eq ? "-eq" : "-ineq");
      e.cost = cost;
      e.eq = eq;
      e.names = { "_j" + std::to_string(j) };
      const double tg = target[j], cf = coeff[j], up = upper[j], lo = lower[j];
      const int jj = static_cast<int>(j), dcol = s.dof;
      e.value = [=](const TrajArray& x) {
        double v = 0;
        for (int i = first; i < last; ++i)
        {
          const double d = (x(i + 1, jj) - x(i, jj)) * x(i + 1, dcol) - tg;
          v += eq ? (cost ? 2 * cf * d * d : 2 * cf * std::fabs(d)) : cf * (pos(d - up) + pos(lo - d));
        }
        return DblVec{ v };
      };
      for (int i = first; i <= last; ++i)
      {
        e.cells.insert({ i, jj });
        e.cells.insert({ i, dcol });
      }
      t.exp.push_back(e);
    }
    return t;
  }
  Want e;
  e.kind = t.type + (eq ? "-eq" : "-ineq");
  e.cost = cost;
  e.eq = eq;
  e.names = { "" };
  e.cells = s.cells(0, s.n - 1);
  const int nd = s.dof;
  e.value = [=](const TrajArray& x) {
    static const double W[4][4] = { { 1, 0, 0, 0 }, { -1, 1, 0, 0 }, { 1, -2, 1, 0 }, { -1, 3, -3, 1 } };
    double v = 0;
    for (int i = first; i + order <= last; ++i)
      for (int j = 0; j < nd; ++j)
      {
        const auto k = static_cast<std::size_t>(j);
        double d = -target[k];
        for (int q = 0; q <= order; ++q)
          d += W[order][q] * x(i + q, j);
        v += eq ? coeff[k] * d * d : coeff[k] * (pos(d - upper[k]) + pos(lower[k] - d));
      }
    return DblVec{ v };
  };
  t.exp.push_back(e);
  return t;
}
inline Term timeTerm(mon::Rng& r, const Spec& s, bool cost)
{
  Term t;
  t.type = "total_time";
  t.cost = cost;
  t.use_time = true;
  double coeff = 1, limit = r.chance(0.3) ? 0.0 : r.unif(0.5, 8);
  t.params["limit"] = limit;
  if (r.chance(0.7))
    t.params["coeff"] = coeff = r.unif(0.1, 5);
  auto& i = make<trajopt::TotalTimeTermInfo>(t);
  i.coeff = coeff;
  i.limit = limit;
  Want e;
  e.kind = "total_time";
  e.cost = cost;
  e.eq = limit == 0;
  e.names = { "" };
  const int n = s.n, d = s.dof;
  e.value = [=](const TrajArray& x) {
    double v = -limit;
    for (int k = 1; k < n; ++k)
      v += 1 / x(k, d);
    return DblVec{ limit == 0 ? (cost ? coeff * v * v : coeff * std::fabs(v)) : coeff * pos(v) };
  };
  for (int k = 1; k < n; ++k)
    e.cells.insert({ k, d });
  t.exp.push_back(e);
  return t;
}
/// a pose of one link relative to another; `dynamic`: both move
inline Term poseTerm(mon::Rng& r, const Spec& s, bool cost, bool dynamic)
{
  Term t;
  t.type = dynamic ? "dynamic_cart_pose" : "cart_pose";
  t.cost = cost;
  const auto& links = s.w->robot->links;
  std::string src = links[static_cast<std::size_t>(r.range(1, s.dof))], tgt = dynamic ? links[static_cast<std::size_t>(r.range(1, s.dof))] : links[0];
  const bool from_source = !dynamic && r.chance(0.5);
  if (from_source)
    std::swap(src, tgt);
  Vector3d pc = Vector3d::Ones(), rc = Vector3d::Ones();
  auto coeffs = [&](const char* key, Vector3d& v) {
    if (r.chance(0.3))
      return;
    for (int i = 0; i < 3; ++i)
      v(i) = r.chance(0.25) ? 0.0 : r.unif(0.1, 5);
    t.params[key] = arr(v);
  };
  coeffs("pos_coeffs", pc);
  coeffs("rot_coeffs", rc);
  if (pc.norm() + rc.norm() == 0)
  {
    pc(0) = 1;
    t.params["pos_coeffs"] = arr(pc);
  }
  Isometry3d so = Isometry3d::Identity(), to = Isometry3d::Identity();
  auto offset = [&](const std::string& key, Isometry3d& T) {
    const Isometry3d R = randPose(r, 0.4);
    if (r.chance(0.6))
    {
      T.translation() = R.translation();
      t.params[key + "_xyz"] = arr(Vector3d(T.translation()));
    }
    if (r.chance(0.6))
    {
      T.linear() = R.linear();
      t.params[key + "_wxyz"] = quat(T);
    }
  };
  offset("source_frame_offset", so);
  offset("target_frame_offset", to);
  t.params["source_frame"] = src;
  t.params["target_frame"] = tgt;
  int step = s.n - 1;
  if (r.chance(0.7))
    t.params["timestep"] = step = r.range(0, s.n - 1);
  VectorXd lo = VectorXd::Zero(6), hi = VectorXd::Zero(6);
  auto fill = [&](auto& i) {
    i.timestep = step;
    i.pos_coeffs = pc;
    i.rot_coeffs = rc;
    i.source_frame = src;
    i.target_frame = tgt;
    i.source_frame_offset = so;
    i.target_frame_offset = to;
    if (r.chance(0.3))
    {
      t.json = false;
      for (int k = 0; k < 6; ++k)
      {
        lo(k) = -r.unif(0, 0.5);
        hi(k) = r.unif(0, 0.5);
      }
      i.lower_tolerance = lo;
      i.upper_tolerance = hi;
    }
  };
  if (dynamic)
    fill(make<trajopt::DynamicCartPoseTermInfo>(t));
  else
    fill(make<trajopt::CartPoseTermInfo>(t));
  Want e;
  e.kind = t.type;
  e.cost = cost;
  e.eq = true;
  e.names = { "" };
  e.cells = s.cells(step, step);
  auto w = s.w;
  const int nd = s.dof;
  e.value = [=](const TrajArray& x) {
    const VectorXd q = x.row(step).head(nd).transpose();
    const auto fk = w->robot->fk(q);
    const Isometry3d S = fk[w->robot->index(src)] * so, T = fk[w->robot->index(tgt)] * to;
    const VectorXd raw = from_source ? pu::poseError(S, T) : pu::poseError(T, S);
    if (raw.tail(3).norm() > 2.9)
      throw mon::AbortCase();
    double v = 0;
    for (int k = 0; k < 6; ++k)
    {
      const double er = raw(k) < lo(k) ? raw(k) - lo(k) : (raw(k) > hi(k) ? raw(k) - hi(k) : 0);
      v += (k < 3 ? pc(k) : rc(k - 3)) * std::fabs(er);
    }
    return DblVec{ v };
  };
  t.exp.push_back(e);
  return t;
}
inline Term cartVelTerm(mon::Rng& r, const Spec& s, bool cost)
{
  Term t;
  t.type = "cart_vel";
  t.cost = cost;
  const int first = r.range(0, s.n - 2), last = r.chance(0.3) ? s.n - 1 : r.range(first + 1, s.n - 1);
  const std::string link = s.w->robot->links[static_cast<std::size_t>(r.range(1, s.dof))];
  const double mx = r.unif(0, 0.5);
  t.params["first_step"] = first;
  t.params["last_step"] = last;
  t.params["link"] = link;
  t.params["max_displacement"] = mx;
  auto& i = make<trajopt::CartVelTermInfo>(t);
  i.first_step = first;
  i.last_step = last;
  i.link = link;
  i.max_displacement = mx;
  auto w = s.w;
  const int nd = s.dof;
  for (int k = first; k <= std::min(last, s.n - 2); ++k)
  {
    Want e;
    e.kind = t.type;
    e.cost = cost;
    e.eq = false;
    e.names = { "" };
    e.cells = s.cells(k, k + 1);
    e.value = [=](const TrajArray& x) {
      const VectorXd q0 = x.row(k).head(nd).transpose(), q1 = x.row(k + 1).head(nd).transpose();
      const std::size_t l = w->robot->index(link);
      const Vector3d d = w->robot->fk(q1)[l].translation() - w->robot->fk(q0)[l].translation();
      double h = 0, a = 0;
      for (int q = 0; q < 3; ++q)
      {
        h += pos(d(q) - mx) + pos(-d(q) - mx);
        a += std::fabs(d(q) - mx) + std::fabs(-d(q) - mx);
      }
      return cost ? DblVec{ h, a } : DblVec{ h };
    };
    t.exp.push_back(e);
  }
  return t;
}
/// the values expected of a collision term are those of a collision cost or constraint made by hand
inline Term collisionTerm(mon::Rng& r, const Spec& s, bool cost, std::vector<std::function<void(trajopt::TrajOptProb&, std::vector<Want>&)>>& later)
{
  Term t;
  t.type = "collision";
  t.cost = cost;
  int type = 1;
  if (r.chance(0.8))
    t.params["evaluator_type"] = type = r.range(1, s.n >= 2 ? 4 : 1);
  int first = 0, last = s.n - 1;
  if (r.chance(0.6))
    t.params["first_step"] = first = r.range(0, s.n - 1);
  if (r.chance(0.6))
    t.params["last_step"] = last = r.range(first, s.n - 1);
  double lvs = 0.5, buffer = 0.5;
  if (r.chance(0.8))
    t.params["longest_valid_segment_length"] = lvs = r.unif(0.1, 0.6);
  if (r.chance(0.5))
    t.params["safety_margin_buffer"] = buffer = r.unif(0.0, 0.4);
  int contact = 2;
  if (r.chance(0.4))
    t.params["contact_test_type"] = contact = r.range(1, 2);
  const double coeff = r.unif(0.2, 5), margin = r.unif(0, 0.4);
  t.params["coeffs"] = coeff;
  t.params["dist_pen"] = margin;
  std::vector<int> fixed;
  for (int k = first; k <= last; ++k)
    if (r.chance(0.25) && (type == 1 || fixed.empty() || fixed.back() != k - 1))
      fixed.push_back(k);
  if (!fixed.empty() || r.chance(0.2))
    t.params["fixed_steps"] = arr(fixed);
  trajopt_common::TrajOptCollisionConfig cfg(margin, coeff, tcol::ContactRequest{ static_cast<tcol::ContactTestType>(contact) },
                                             static_cast<tcol::CollisionEvaluatorType>(type), lvs);
  cfg.collision_margin_buffer = buffer;
  std::vector<std::string> links;
  for (const auto& g : s.w->geo.of)
    links.push_back(g.first);
  if (links.size() >= 2 && r.chance(0.5))
    for (int k = r.range(1, 2); k > 0; --k)
    {
      Json::Value p(Json::objectValue), with(Json::arrayValue);
      const auto a = r.pick(links);
      const double pc = r.chance(0.3) ? 0.0 : r.unif(0.2, 5), pm = r.unif(0, 0.5);
      for (int q = r.range(1, 2); q > 0; --q)
      {
        const auto b = r.pick(links);
        if (a == b)
          continue;
        with.append(b);
        cfg.contact_manager_config.pair_margin_data.setCollisionMargin(a, b, pm);
        cfg.contact_manager_config.pair_margin_override_type = tcol::CollisionMarginPairOverrideType::MODIFY;
        cfg.collision_coeff_data.setCollisionCoeff(a, b, pc);
      }
      if (with.empty())
        continue;
      p["link"] = a;
      p["pair"] = with;
      p["coeffs"] = pc;
      p["dist_pen"] = pm;
      t.params["pairs"].append(p);
    }
  auto& i = make<trajopt::CollisionTermInfo>(t);
  i.first_step = first;
  i.last_step = last;
  i.fixed_steps = fixed;
  i.config = cfg;
  auto isFixed = [fixed](int k) { return std::find(fixed.begin(), fixed.end(), k) != fixed.end(); };
  for (int k = first; k <= last; ++k)
  {
    if (type == 1 ? isFixed(k) : k == last)
      continue;
    Want e;
    e.kind = "collision" + std::to_string(type);
    e.cost = cost;
    e.eq = false;
    e.names = { "_" + std::to_string(k) };
    e.cells = s.cells(k, type == 1 ? k : k + 1);
    t.exp.push_back(e);
  }
  // without the term's own code: one cost or constraint per step or pair of steps
  auto w = s.w;
  auto env = s.env;
  const int nd = s.dof;
  later.push_back([=](trajopt::TrajOptProb& prob, std::vector<Want>& exp) {
    std::size_t at = 0;
    for (int k = first; k <= last; ++k)
    {
      if (type == 1 ? isFixed(k) : k == last)
        continue;
      using E = trajopt::CollisionExpressionEvaluatorType;
      const E et = type == 1 ? E::SINGLE_TIME_STEP : (isFixed(k) ? E::START_FIXED_END_FREE : (isFixed(k + 1) ? E::START_FREE_END_FIXED : E::START_FREE_END_FREE));
      const auto v0 = prob.GetVarRow(k, 0, nd);
      const auto v1 = type == 1 ? sco::VarVector() : prob.GetVarRow(k + 1, 0, nd);
      auto cs = cost ? (type == 1 ? std::make_shared<trajopt::CollisionCost>(w->robot, env, cfg, v0, et) :
                                    std::make_shared<trajopt::CollisionCost>(w->robot, env, cfg, v0, v1, et, type == 2)) :
                       nullptr;
      auto cn = !cost ? (type == 1 ? std::make_shared<trajopt::CollisionConstraint>(w->robot, env, cfg, v0, et) :
                                     std::make_shared<trajopt::CollisionConstraint>(w->robot, env, cfg, v0, v1, et, type == 2)) :
                        nullptr;
      exp.at(at++).value = [=](const TrajArray& x) {
        const DblVec xx = trajopt::trajToDblVec(x);
        return DblVec{ cs ? cs->value(xx) : cn->violation(xx) };
      };
    }
  });
  return t;
}
inline Term userTerm(mon::Rng& r, const Spec& s, bool cost)
{
  Term t;
  t.type = "user";
  t.json = false;
  t.cost = cost;
  t.name = "mine";
  auto& i = make<trajopt::UserDefinedTermInfo>(t);
  const int rows = r.range(1, 3), first = r.range(0, s.n - 1), last = r.range(first, s.n - 1);
  MatrixXd A(rows, s.dof);
  VectorXd b(rows), cf(rows);
  for (int a = 0; a < rows; ++a)
  {
    b(a) = r.unif(-1, 1);
    cf(a) = r.unif(0.1, 3);
    for (int q = 0; q < s.dof; ++q)
      A(a, q) = r.unif(-1, 1);
  }
  i.first_step = first;
  i.last_step = last;
  for (int k = first; k <= last; ++k)
    if (r.chance(0.2))
      i.fixed_steps.push_back(k);
  i.error_function = [=](const VectorXd& q) -> VectorXd { return (A * q).array().square().matrix() - b; };
  if (r.chance(0.5))
    i.jacobian_function = [=](const VectorXd& q) -> MatrixXd { return 2 * (A * q).asDiagonal() * A; };
  const int pt = r.range(0, 2);
  i.cost_penalty_type = pt == 0 ? sco::SQUARED : (pt == 1 ? sco::ABS : sco::HINGE);
  const bool eq = r.chance(0.5);
  i.constraint_type = eq ? sco::EQ : sco::INEQ;
  i.coeff = cf;
  i.name = "prefix";
  const auto ef = i.error_function;
  const int nd = s.dof;
  for (int k = first; k <= last; ++k)
  {
    if (std::find(i.fixed_steps.begin(), i.fixed_steps.end(), k) != i.fixed_steps.end())
      continue;
    Want e;
    e.kind = "user";
    e.cost = cost;
    e.eq = eq;
    const std::string end = "_" + std::to_string(k);
    if (cost)
      e.names = pt == 0 ? std::vector<std::string>{ "prefix_SQUARED" + end } :
                          (pt == 1 ? std::vector<std::string>{ "prefix_ABS" + end } : std::vector<std::string>{ "prefix_HING" + end, "prefix_HINGE" + end });
    else
      e.names = { std::string("prefix_") + (eq ? "EQ" : "INEQ") + end };
    e.cells = s.cells(k, k);
    e.value = [=](const TrajArray& x) {
      const VectorXd v = ef(x.row(k).head(nd).transpose());
      double sum = 0;
      for (int a = 0; a < rows; ++a)
        if (cost)
          sum += cf(a) * (pt == 0 ? v(a) * v(a) : (pt == 1 ? std::fabs(v(a)) : pos(v(a))));
        else
          sum += cf(a) * (eq ? std::fabs(v(a)) : pos(v(a)));
      return DblVec{ sum };
    };
    t.exp.push_back(e);
  }
  return t;
}
inline Term singularityTerm(mon::Rng& r, const Spec& s, bool cost)
{
  Term t;
  t.type = "singularity";
  t.json = false;
  t.cost = cost;
  t.name = "away";
  const int sub = r.chance(0.5) ? r.range(1, s.dof) : 0;
  std::shared_ptr<Robot> part;
  std::string link = s.w->robot->links[static_cast<std::size_t>(r.range(1, s.dof))];
  if (sub > 0)
  {
    part = std::make_shared<Robot>();
    part->joints.assign(s.w->robot->joints.begin(), s.w->robot->joints.begin() + sub);
    part->links.assign(s.w->robot->links.begin(), s.w->robot->links.begin() + sub + 1);
    part->logging = false;
    link = part->links[static_cast<std::size_t>(r.range(1, sub))];
  }
  const double lambda = r.unif(0.01, 0.5), coeff = r.unif(0.1, 5);
  auto i = std::make_shared<trajopt::AvoidSingularityTermInfo>(part, lambda);
  t.direct = i;
  i->link = link;
  i->coeffs = { coeff };
  i->first_step = r.range(0, s.n - 1);
  i->last_step = r.range(i->first_step, s.n - 1);
  auto w = s.w;
  const int nd = s.dof;
  for (int k = i->first_step; k <= i->last_step; ++k)
  {
    Want e;
    e.kind = "singularity";
    e.cost = cost;
    e.eq = false;
    e.names = { "_" + std::to_string(k) };
    e.cells = s.cells(k, k);
    e.value = [=](const TrajArray& x) {
      const VectorXd q = x.row(k).head(nd).transpose();
      double v = 0;
      if (sub > 0 && sub < nd)
        v = trajopt::AvoidSingularitySubsetErrCalculator(part, w->robot, link, lambda)(q)(0);
      else
        v = trajopt::AvoidSingularityErrCalculator(w->robot, link, lambda)(q)(0);
      return DblVec{ cost ? coeff * std::fabs(v) : coeff * pos(v) };
    };
    t.exp.push_back(e);
  }
  return t;
}
}  // namespace ps
