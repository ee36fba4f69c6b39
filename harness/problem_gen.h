// Problems described at random, as JSON or as the structures behind it, together with what they say.
#pragma once
#include "problem_spec.h"
#include <tesseract/visualization/visualization.h>
using namespace ps;
namespace
{
using Later = std::vector<std::function<void(trajopt::TrajOptProb&, std::vector<Want>&)>>;
struct TermLater
{
  bool cost;
  std::size_t term;
  std::function<void(trajopt::TrajOptProb&, std::vector<Want>&)> fill;
};
struct Described
{
  Spec s;
  std::vector<TermLater> later;
};
/// a term registered under a name of its own
struct SumTerm : trajopt::TermInfo
{
  int step{ 0 };
  explicit SumTerm(TermType t = TermType::TT_COST | TermType::TT_CNT) : TermInfo(t) {}
  void fromJson(trajopt::ProblemConstructionInfo& pci, const Json::Value& v) override
  {
    step = v["params"]["step"].asInt();
    if (step >= pci.basic_info.n_steps)
      throw std::runtime_error("no such step");
  }
  static double value(const VectorXd& q) { return q.sum() - 0.25; }
  void hatch(trajopt::TrajOptProb& p) override
  {
    const auto f = sco::VectorOfVector::construct([](const VectorXd& q) -> VectorXd { return VectorXd::Constant(1, value(q)); });
    const auto vars = p.GetVarRow(step, 0, static_cast<int>(p.GetKin()->numJoints()));
    if (static_cast<bool>(term_type & TermType::TT_COST))
      p.addCost(std::make_shared<trajopt::TrajOptCostFromErrFunc>(f, vars, VectorXd::Ones(1), sco::SQUARED, name));
    else
      p.addConstraint(std::make_shared<trajopt::TrajOptConstraintFromErrFunc>(f, vars, VectorXd::Ones(1), sco::EQ, name));
  }
  static TermInfo::Ptr create() { return std::make_shared<SumTerm>(); }
};
Term sumTerm(mon::Rng& r, const Spec& s, bool cost)
{
  Term t;
  t.type = "sum_of_joints";
  t.cost = cost;
  const int k = r.range(0, s.n - 1), nd = s.dof;
  t.params["step"] = k;
  make<SumTerm>(t).step = k;
  Want e;
  e.kind = "registered";
  e.cost = cost;
  e.eq = true;
  e.names = { "" };
  e.cells = s.cells(k, k);
  e.value = [=](const TrajArray& x) {
    const double v = SumTerm::value(x.row(k).head(nd).transpose());
    return DblVec{ cost ? v * v : std::fabs(v) };
  };
  t.exp.push_back(e);
  return t;
}
Described describe(mon::Rng& r, bool json, int min_n = 1)
{
  Described d;
  Spec& s = d.s;
  s.n = r.range(std::max(min_n, 1), 6);
  s.dof = r.range(1, 4);
  s.w = randWorld(r, s.dof, false, false);
  s.env = std::make_shared<Env>(s.w);
  s.env->manip = r.pick(std::vector<std::string>{ "manipulator", "arm", "left_arm" });
  auto& rob = *s.w->robot;
  rob.logging = true;
  rob.limits.resize(s.dof, 2);
  s.start.resize(s.dof);
  s.end.resize(s.dof);
  for (int j = 0; j < s.dof; ++j)
  {
    const double a = r.unif(-3, -0.5), b = r.unif(0.5, 3);
    rob.limits(j, 0) = a;
    rob.limits(j, 1) = b;
    s.lo.push_back(a);
    s.hi.push_back(b);
    s.start(j) = r.unif(a, b);
    s.end(j) = r.unif(a, b);
    s.env->state.joints["j" + std::to_string(j)] = s.start(j);
  }
  s.env->state.joints["elsewhere"] = 7;
  s.use_time = s.n >= 2 && r.chance(0.4);
  s.basic_time = s.use_time && (!json || r.chance(0.5));
  if (r.chance(0.6))
  {
    s.dt_lo = r.unif(0.2, 1);
    s.dt_hi = r.chance(0.1) ? s.dt_lo : s.dt_lo + r.unif(0.1, 3);
  }
  if ((s.give_dt = r.chance(0.5)))
    s.dt = r.unif(s.dt_lo, s.dt_hi);
  for (int k = 0; k < s.n; ++k)
    if (r.chance(0.25))
      s.fixed_steps.push_back(k);
  for (int j = 0; j < s.dof; ++j)
    if (r.chance(0.2))
      s.fixed_dofs.push_back(j);
  r.shuffle(s.fixed_steps);
  r.shuffle(s.fixed_dofs);
  s.init = r.range(0, 2);
  s.data.resize(s.n, s.dof);
  for (int k = 0; k < s.n; ++k)
    for (int j = 0; j < s.dof; ++j)
      s.data(k, j) = r.unif(s.lo[static_cast<std::size_t>(j)], s.hi[static_cast<std::size_t>(j)]);
  s.solver = r.pick(std::vector<std::string>{ "OSQP", "QPOASES" });
  for (int list = 0; list < 2; ++list)
  {
    const bool cost = list == 0;
    auto& terms = cost ? s.costs : s.cnts;
    int count = r.range(0, 3);
    const bool need_time = s.use_time && !cost && std::none_of(s.costs.begin(), s.costs.end(), [](const Term& t) { return t.use_time; });
    const int at = need_time ? r.range(0, count) : -1;
    if (need_time)
      ++count;
    for (int i = 0; i < count; ++i)
    {
      Term t;
      Later later;
      int k = i == at ? r.range(20, 21) : r.range(0, json ? 9 : 11);
      if (k >= 20)
        t = k == 20 ? timeTerm(r, s, cost) : jointTerm(r, s, 1, cost, true);
      else if (k < 4)
      {
        if (s.n <= k)
          k = 0;
        t = jointTerm(r, s, k, cost, k == 1 && s.use_time && r.chance(0.5));
      }
      else if (k == 4)
        t = poseTerm(r, s, cost, r.chance(0.4));
      else if (k == 5 && s.n >= 2)
        t = cartVelTerm(r, s, cost);
      else if (k <= 7)
        t = collisionTerm(r, s, cost, later);
      else if (k == 8 && s.use_time)
        t = timeTerm(r, s, cost);
      else if (k <= 9)
        t = sumTerm(r, s, cost);
      else if (k == 10)
        t = userTerm(r, s, cost);
      else
        t = singularityTerm(r, s, cost);
      if (json && !t.json)
      {
        --i;
        continue;
      }
      if (t.name.empty() && r.chance(0.6))
        t.name = r.pick(std::vector<std::string>{ "goal", "my term", "x", "goal" }) + std::to_string(r.range(0, 9));
      terms.push_back(t);
      for (auto& l : later)
        d.later.push_back({ cost, terms.size() - 1, l });
    }
  }
  return d;
}
Json::Value write(mon::Rng& r, const Spec& s)
{
  Json::Value v(Json::objectValue);
  auto& b = v["basic_info"] = Json::Value(Json::objectValue);
  b["n_steps"] = s.n;
  b["manip"] = s.env->manip;
  b["convex_solver"] = s.solver;
  if (!s.fixed_steps.empty() || r.chance(0.2))
    b["fixed_timesteps"] = arr(s.fixed_steps);
  if (!s.fixed_dofs.empty() || r.chance(0.2))
    b["fixed_dofs"] = arr(s.fixed_dofs);
  if (s.dt_lo != 1 || s.dt_hi != 1 || r.chance(0.3))
  {
    b["dt_lower_lim"] = s.dt_lo;
    b["dt_upper_lim"] = s.dt_hi;
  }
  if (s.basic_time || r.chance(0.2))
    b["use_time"] = s.basic_time;
  for (int list = 0; list < 2; ++list)
  {
    const auto& terms = list == 0 ? s.costs : s.cnts;
    if (terms.empty() && r.chance(0.5))
      continue;
    auto& a = v[list == 0 ? "costs" : "constraints"] = Json::Value(Json::arrayValue);
    for (const auto& t : terms)
    {
      Json::Value e(Json::objectValue);
      e["type"] = t.type;
      if (!t.name.empty())
        e["name"] = t.name;
      if (t.use_time || r.chance(0.1))
        e["use_time"] = t.use_time;
      e["params"] = t.params;
      a.append(e);
    }
  }
  auto& i = v["init_info"] = Json::Value(Json::objectValue);
  if (s.give_dt)
    i["dt"] = s.dt;
  switch (s.init)
  {
    case 0: i["type"] = r.chance(0.3) ? "STATIONARY" : "stationary"; break;
    case 1:
      i["type"] = "joint_interpolated";
      i["endpoint"] = arr(std::vector<double>(s.end.data(), s.end.data() + s.end.size()));
      break;
    default:
      i["type"] = "given_traj";
      for (int k = 0; k < s.n; ++k)
      {
        std::vector<double> row;
        for (int j = 0; j < s.dof; ++j)
          row.push_back(s.data(k, j));
        i["data"].append(arr(row));
      }
  }
  return v;
}
void fillInfo(mon::Rng& r, const Spec& s, trajopt::ProblemConstructionInfo& p)
{
  p.kin = s.env->getJointGroup(s.env->manip);
  p.basic_info.n_steps = s.n;
  p.basic_info.manip = s.env->manip;
  p.basic_info.fixed_timesteps = s.fixed_steps;
  p.basic_info.fixed_dofs = s.fixed_dofs;
  p.basic_info.convex_solver = sco::ModelType(s.solver);
  p.basic_info.use_time = s.use_time;
  p.basic_info.dt_lower_lim = s.dt_lo;
  p.basic_info.dt_upper_lim = s.dt_hi;
  p.init_info.dt = s.dt;
  using I = trajopt::InitInfo;
  p.init_info.type = s.init == 0 ? I::STATIONARY : (s.init == 1 ? I::JOINT_INTERPOLATED : I::GIVEN_TRAJ);
  if (s.init == 1)
    p.init_info.data = r.chance(0.5) ? TrajArray(s.end) : TrajArray(s.end.transpose());
  else if (s.init == 2)
    p.init_info.data = s.data;
  for (int list = 0; list < 2; ++list)
    for (const auto& t : list == 0 ? s.costs : s.cnts)
    {
      t.direct->name = t.title();
      t.direct->term_type = (list == 0 ? TermType::TT_COST : TermType::TT_CNT) | (t.use_time ? TermType::TT_USE_TIME : TermType::TT_INVALID);
      (list == 0 ? p.cost_infos : p.cnt_infos).push_back(t.direct);
    }
}
/// the start it must have; the second where the description leaves a choice
std::vector<TrajArray> starts(const Spec& s)
{
  const int cols = s.dof + (s.use_time ? 1 : 0);
  TrajArray t(s.n, cols);
  for (int k = 0; k < s.n; ++k)
  {
    const double a = s.n == 1 ? 0.0 : static_cast<double>(k) / (s.n - 1);
    for (int j = 0; j < s.dof; ++j)
      t(k, j) = s.init == 0 ? s.start(j) : (s.init == 1 ? s.start(j) + a * (s.end(j) - s.start(j)) : s.data(k, j));
    if (s.use_time)
      t(k, s.dof) = s.dt;
  }
  std::vector<TrajArray> v{ t };
  if (s.n == 1 && s.init == 1)
  {
    t.row(0).head(s.dof) = s.end.transpose();
    v.push_back(t);
  }
  return v;
}
std::string modelOf(trajopt::TrajOptProb& p)
{
  const auto m = p.getModel();
  if (dynamic_cast<sco::OSQPModel*>(m.get()) != nullptr)
    return "OSQP";
  if (dynamic_cast<sco::qpOASESModel*>(m.get()) != nullptr)
    return "QPOASES";
  return "another";
}
std::string showDescription(const Spec& s, const Json::Value& v)
{
  std::ostringstream o;
  if (!v.isNull())
  {
    Json::StreamWriterBuilder b;
    b["indentation"] = "";
    o << Json::writeString(b, v);
  }
  else
    o << s.n << " steps, " << s.dof << " joints, " << s.costs.size() << " costs, " << s.cnts.size() << " constraints";
  return o.str();
}
void judge(mon::Case& c, const Described& d, trajopt::TrajOptProb& p, const std::string& from)
{
  mon::Rng& r = c.rng;
  const Spec& s = d.s;
  const int cols = s.dof + (s.use_time ? 1 : 0);
  EXPECT(p.GetNumSteps() == s.n && p.GetNumDOF() == cols && p.GetHasTime() == s.use_time, "shape",
         p.GetNumSteps() << " steps of " << p.GetNumDOF() << " variables, time " << p.GetHasTime() << from);
  EXPECT(p.GetKin() == s.env->getJointGroup(s.env->manip) && p.GetEnv() == s.env, "objects", "manipulator or environment are not those given" << from);
  EXPECT(modelOf(p) == s.solver, "solver", "solver is " << modelOf(p) << " not " << s.solver << from);
  // variables
  const auto& vars = p.GetVars();
  EXPECT(static_cast<int>(p.getVars().size()) == s.n * cols, "vars", p.getVars().size() << " variables" << from);
  std::map<std::size_t, std::pair<int, int>> cell;
  for (int k = 0; k < s.n; ++k)
    for (int j = 0; j < cols; ++j)
    {
      const auto at = static_cast<std::size_t>(k * cols + j);
      const auto v = p.GetVar(k, j);
      const bool time = j == s.dof;
      const std::string name = time ? "dt_" + std::to_string(k) : "j_" + std::to_string(k) + "_" + std::to_string(j);
      EXPECT(v.var_rep->name == name && v.var_rep->index == at && vars.at(k, j).var_rep == v.var_rep && p.getVars()[at].var_rep == v.var_rep, "var",
             "variable " << k << "," << j << " is " << v.var_rep->name << " of index " << v.var_rep->index << from);
      const double lo = time ? s.dt_lo : s.lo[static_cast<std::size_t>(j)], hi = time ? s.dt_hi : s.hi[static_cast<std::size_t>(j)];
      EXPECT(p.getLowerBounds()[at] == lo && p.getUpperBounds()[at] == hi, "bounds",
             name << " is in " << p.getLowerBounds()[at] << ".." << p.getUpperBounds()[at] << " not " << lo << ".." << hi << from);
      cell[at] = { k, j };
    }
  c.event("variables", s.n * cols);
  // the start
  const TrajArray init = p.GetInitTraj();
  bool ok = false;
  for (const auto& e : starts(s))
    ok = ok || (init.rows() == e.rows() && init.cols() == e.cols() && (init - e).cwiseAbs().maxCoeff() <= 1e-12);
  EXPECT(ok, "start", "the start is\n" << init << "\nnot\n" << starts(s)[0] << from);
  c.event("start_" + std::to_string(s.init));
  // costs and constraints, in the order they were given
  std::vector<std::pair<Want, std::string>> want[3];
  for (int list = 0; list < 2; ++list)
  {
    const auto& terms = list == 0 ? s.costs : s.cnts;
    for (std::size_t i = 0; i < terms.size(); ++i)
    {
      std::vector<Want> e = terms[i].exp;
      for (const auto& l : d.later)
        if (l.cost == (list == 0) && l.term == i)
          l.fill(p, e);
      for (auto& x : e)
        want[list == 0 ? 0 : (x.eq ? 1 : 2)].push_back({ x, terms[i].type == "user" ? "" : terms[i].title() });
    }
  }
  static const char* what[] = { "cost", "equality", "inequality" };
  std::vector<std::string> names[3];
  for (const auto& o : p.getCosts())
    names[0].push_back(o->name());
  for (const auto& o : p.getEqConstraints())
    names[1].push_back(o->name());
  for (const auto& o : p.getIneqConstraints())
    names[2].push_back(o->name());
  auto list = [](const std::vector<std::string>& v) {
    std::string t;
    for (const auto& x : v)
      t += " '" + x + "'";
    return t;
  };
  for (int l = 0; l < 3; ++l)
  {
    EXPECT(names[l].size() == want[l].size(), std::string("number-of:") + what[l], names[l].size() << ' ' << what[l] << " terms" << list(names[l]) << ", not " << want[l].size() << from);
    for (std::size_t i = 0; i < names[l].size(); ++i)
    {
      bool named = false;
      for (const auto& n : want[l][i].first.names)
        named = named || names[l][i] == want[l][i].second + n;
      EXPECT(named, "name:" + want[l][i].first.kind, what[l] << ' ' << i << " is called '" << names[l][i] << "' not '" << want[l][i].second << want[l][i].first.names[0] << "'" << from);
    }
  }
  const auto cnts = p.getConstraints();
  for (const auto& k : p.getEqConstraints())
    EXPECT(k->type() == sco::EQ, "type", k->name() << " is no equality" << from);
  for (const auto& k : p.getIneqConstraints())
    EXPECT(k->type() == sco::INEQ, "type", k->name() << " is no inequality" << from);
  EXPECT(cnts.size() == names[1].size() + names[2].size(), "constraints", cnts.size() << " constraints" << from);
  // what they depend on
  auto depends = [&](const sco::VarVector& v, const Want& e, const std::string& name) {
    for (const auto& x : v)
      if (!e.cells.count(cell.at(x.var_rep->index)))
        EXPECT(false, "depends:" + e.kind, name << " depends on " << x.var_rep->name << from);
  };
  for (std::size_t i = 0; i < want[0].size(); ++i)
    depends(p.getCosts()[i]->getVars(), want[0][i].first, names[0][i]);
  for (std::size_t i = 0; i < want[1].size(); ++i)
    depends(p.getEqConstraints()[i]->getVars(), want[1][i].first, names[1][i]);
  for (std::size_t i = 0; i < want[2].size(); ++i)
    depends(p.getIneqConstraints()[i]->getVars(), want[2][i].first, names[2][i]);
  // their values
  const int rounds = 2;
  for (int q = 0; q < rounds; ++q)
  {
    TrajArray x(s.n, cols);
    for (int k = 0; k < s.n; ++k)
      for (int j = 0; j < cols; ++j)
        x(k, j) = j == s.dof ? r.unif(0.3, 3) : r.unif(-1.5, 1.5);
    if (q == 1 && r.chance(0.3))
      x = init;
    const DblVec xx = trajopt::trajToDblVec(x);
    for (int l = 0; l < 3; ++l)
      for (std::size_t i = 0; i < want[l].size(); ++i)
      {
        const Want& e = want[l][i].first;
        DblVec v;
        try
        {
          v = e.value(x);
        }
        catch (const mon::AbortCase&)
        {
          continue;
        }
        const double got = l == 0 ? p.getCosts()[i]->value(xx) : (l == 1 ? p.getEqConstraints()[i]->violation(xx) : p.getIneqConstraints()[i]->violation(xx));
        bool same = false;
        for (double y : v)
          same = same || std::fabs(got - y) <= 1e-8 * (1 + std::fabs(y));
        EXPECT(same, "value:" + e.kind + (l == 0 ? "" : ":constraint"), what[l] << " '" << names[l][i] << "' is " << got << " not " << v[0] << " at\n" << x << from);
        c.event("values");
        c.event((l == 0 ? "cost_" : "constraint_") + e.kind);
      }
  }
  // fixed steps and joints, seen through the nearest trajectory the solver finds
  TrajArray x(s.n, cols), y(s.n, cols);
  for (int k = 0; k < s.n; ++k)
    for (int j = 0; j < cols; ++j)
    {
      const auto at = static_cast<std::size_t>(k * cols + j);
      const double lo = p.getLowerBounds()[at], hi = p.getUpperBounds()[at];
      x(k, j) = r.unif(lo - 0.5, hi + 0.5);
      y(k, j) = std::min(hi, std::max(lo, x(k, j)));
      if (j < s.dof && (std::count(s.fixed_steps.begin(), s.fixed_steps.end(), k) + std::count(s.fixed_dofs.begin(), s.fixed_dofs.end(), j)) > 0)
      {
        y(k, j) = init(k, j);
        c.event("fixed_variables");
      }
    }
  const DblVec near = p.getClosestFeasiblePointQP(trajopt::trajToDblVec(x));
  const TrajArray got = trajopt::getTraj(near, vars);
  EXPECT((got - y).cwiseAbs().maxCoeff() <= 2e-4, "fixed", "the nearest trajectory allowed to\n" << x << "\nis\n" << got << "\nnot\n" << y << from);
  c.event("projections");
}
trajopt::TrajOptProb::Ptr build(mon::Case& c, const Spec& s, const Json::Value& v, bool two_steps)
{
  mon::Rng& r = c.rng;
  trajopt::TrajOptProb::Ptr p;
  std::string refused;
  try
  {
    Quiet quiet;
    if (v.isNull())
    {
      trajopt::ProblemConstructionInfo pci(s.env);
      fillInfo(r, s, pci);
      p = trajopt::ConstructProblem(pci);
      if (two_steps)
        p = trajopt::ConstructProblem(pci);
    }
    else if (two_steps)
    {
      trajopt::ProblemConstructionInfo pci(s.env);
      pci.fromJson(v);
      p = trajopt::ConstructProblem(pci);
    }
    else
      p = trajopt::ConstructProblem(v, s.env);
  }
  catch (const std::exception& e)
  {
    refused = e.what();
  }
  EXPECT(p != nullptr, "refused", "refused: " << refused << " from " << showDescription(s, v));
  return p;
}
}  // namespace
