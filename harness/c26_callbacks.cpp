// C26: what the callbacks of trajopt show and record.  Problems described at random are shown and written at random iterates,
// and optimized with and without callbacks; a recording screen and the written file are compared with the iterates.
#include "problem_gen.h"
#include <fstream>
#include <tesseract/visualization/markers/arrow_marker.h>
#include <tesseract/visualization/markers/axis_marker.h>
#include <tesseract/visualization/markers/contact_results_marker.h>
#include <trajopt/file_write_callback.hpp>
#include <trajopt/plot_callback.hpp>
#include <trajopt/typedefs.hpp>
namespace
{
namespace tv = tesseract::visualization;
struct Shown
{
  char what;  // c(lear) m(arker) t(rajectory) w(ait)
  int type{ 0 };
  std::string text;
  tesseract::common::JointTrajectory traj;
  const void* solver{ nullptr };
};
struct Screen : tv::Visualization
{
  std::vector<Shown> log;
  void plotMarker(const tv::Marker& m, std::string) override
  {
    Shown s{ 'm' };
    s.type = m.getType();
    std::ostringstream o;
    o.precision(12);
    o << s.type << " scale " << m.scale.transpose();
    if (const auto* a = dynamic_cast<const tv::AxisMarker*>(&m))
      o << " at " << a->pose.matrix().reshaped().transpose();
    else if (const auto* b = dynamic_cast<const tv::ArrowMarker*>(&m))
      o << " from " << b->from.transpose() << " to " << b->to.transpose();
    else if (const auto* k = dynamic_cast<const tv::ContactResultsMarker*>(&m))
    {
      std::multiset<std::string> all;
      for (const auto& x : k->dist_results)
      {
        std::ostringstream p;
        p.precision(12);
        p << ' ' << x.link_names[0] << '-' << x.link_names[1] << ' ' << x.distance << ' ' << k->margin_fn(x.link_names[0], x.link_names[1]);
        all.insert(p.str());
      }
      for (const auto& x : all)
        o << x;
    }
    s.text = o.str();
    log.push_back(s);
  }
  void plotTrajectory(const tesseract::common::JointTrajectory& t, const tesseract::scene_graph::StateSolver& solver, std::string) override
  {
    Shown s{ 't' };
    s.traj = t;
    s.solver = &solver;
    log.push_back(s);
  }
  void clear(std::string) override { log.push_back({ 'c' }); }
  void waitForInput(std::string) override { log.push_back({ 'w' }); }
};
TrajArray iterate(mon::Rng& r, const Spec& s)
{
  TrajArray x(s.n, s.dof + (s.use_time ? 1 : 0));
  for (int k = 0; k < x.rows(); ++k)
    for (int j = 0; j < x.cols(); ++j)
      x(k, j) = j == s.dof ? r.unif(0.3, 3) : r.unif(-1.5, 1.5);
  return x;
}
/// one call of a plot callback
void judgeShown(mon::Case& c, const std::vector<Shown>& log, const Spec& s, trajopt::TrajOptProb& p, const TrajArray& x, const std::string& who, const void* solver, const std::string& from)
{
  EXPECT(!log.empty() && log.front().what == 'c' && log.back().what == 'w', who + ":order", "a call does not start with a clear screen and end with waiting, after " << log.size() << " things" << from);
  std::multiset<std::string> got, want;
  int axes = 0, contacts = 0, trajs = 0;
  for (std::size_t i = 1; i + 1 < log.size(); ++i)
  {
    const Shown& l = log[i];
    EXPECT(l.what == 'm' || l.what == 't', who + ":order", "cleared or waited in between" << from);
    if (l.what == 'm')
    {
      got.insert(l.text);
      axes += l.type == static_cast<int>(tv::MarkerType::AXIS);
      contacts += l.type == static_cast<int>(tv::MarkerType::CONTACT_RESULTS);
      c.event("markers");
      continue;
    }
    ++trajs;
    EXPECT(solver == nullptr || l.solver == solver, who + ":solver", "another state solver" << from);
    EXPECT(l.traj.states.size() == static_cast<std::size_t>(s.n), who + ":steps", l.traj.states.size() << " states for " << s.n << " steps" << from);
    const auto names = s.w->robot->getJointNames();
    for (int k = 0; k < s.n; ++k)
    {
      const auto& st = l.traj.states[static_cast<std::size_t>(k)];
      EXPECT(st.joint_names == names, who + ":names", "state " << k << " is not of the manipulator's joints" << from);
      EXPECT(st.position.size() == s.dof, who + ":values", st.position.size() << " values for " << s.dof << " joints" << (s.use_time ? " (with time)" : "") << from);
      EXPECT((st.position - x.row(k).head(s.dof).transpose()).cwiseAbs().maxCoeff() == 0, who + ":values", "step " << k << " is shown at " << st.position.transpose() << " not " << x.row(k) << from);
      c.event("states_shown");
    }
  }
  EXPECT(trajs == 1, who + ":trajectory", trajs << " trajectories shown" << from);
  // every term which can be drawn, as it draws itself at the iterate
  const DblVec xx = trajopt::trajToDblVec(x);
  auto own = std::make_shared<Screen>();
  for (const auto& o : p.getCosts())
    if (auto* plt = dynamic_cast<trajopt::Plotter*>(o.get()))
      plt->Plot(own, xx);
  for (const auto& o : p.getConstraints())
    if (auto* plt = dynamic_cast<trajopt::Plotter*>(o.get()))
      plt->Plot(own, xx);
  for (const auto& l : own->log)
    want.insert(l.text);
  EXPECT(got == want, who + ":markers", got.size() << " markers shown, the terms have " << want.size() << (got.size() == want.size() ? ", others" : "") << from);
  int poses = 0, collisions = 0;
  for (const auto* l : { &s.costs, &s.cnts })
    for (const auto& t : *l)
      for (const auto& e : t.exp)
      {
        poses += e.kind == "cart_pose" || e.kind == "dynamic_cart_pose";
        collisions += e.kind.compare(0, 9, "collision") == 0;
      }
  EXPECT(axes == 2 * poses, who + ":poses", axes << " frames shown for " << poses << " pose terms" << from);
  EXPECT(contacts == collisions, who + ":contacts", contacts << " sets of contacts shown for " << collisions << " collision terms" << from);
  c.event("poses_shown", poses);
  c.event("contacts_shown", collisions);
  c.event("calls_shown");
}
std::vector<std::string> split(const std::string& s)
{
  std::vector<std::string> v;
  std::size_t at = 0;
  while (true)
  {
    const auto e = s.find(',', at);
    v.push_back(s.substr(at, e == std::string::npos ? e : e - at));
    if (e == std::string::npos)
      return v;
    at = e + 1;
  }
}
bool same(const std::string& text, double v, double more = 0)
{
  char* end = nullptr;
  const double d = std::strtod(text.c_str(), &end);
  return end != text.c_str() && (*end == 0) && std::fabs(d - v) <= 1.001e-5 * std::fabs(v) + more;
}
struct Recorded
{
  TrajArray x;
  DblVec costs, cnts;
};
/// the whole file against all calls so far
void judgeFile(mon::Case& c, const std::string& path, const Spec& s, trajopt::TrajOptProb& p, const std::vector<Recorded>& calls, const std::string& from)
{
  std::ifstream f(path);
  std::string line;
  EXPECT(static_cast<bool>(std::getline(f, line)), "file:header", "no header" << from);
  const auto head = split(line);
  const auto joints = s.w->robot->getJointNames();
  std::vector<std::string> terms;
  for (const auto& o : p.getCosts())
    terms.push_back(o->name());
  for (const auto& o : p.getConstraints())
    terms.push_back(o->name());
  EXPECT(head.size() >= joints.size() + terms.size(), "file:header", "header " << line << from);
  for (std::size_t i = 0; i < joints.size(); ++i)
    EXPECT(head[i] == joints[i], "file:joint-names", "column " << i << " is called " << head[i] << " but holds joint " << joints[i] << ": " << line << from);
  for (std::size_t i = 0; i < terms.size(); ++i)
    EXPECT(head[head.size() - terms.size() + i] == terms[i], "file:term-names", "column " << head[head.size() - terms.size() + i] << " is of " << terms[i] << ": " << line << from);
  for (std::size_t q = 0; q < calls.size(); ++q)
  {
    const auto& e = calls[q];
    for (int k = 0; k < s.n; ++k)
    {
      EXPECT(static_cast<bool>(std::getline(f, line)) && !line.empty(), "file:rows", "row " << k << " of call " << q << " is missing" << from);
      const std::string where = "row " + std::to_string(k) + " of call " + std::to_string(q) + " (" + line + ")";
      // the labelled poses
      std::map<std::size_t, std::string> labels;
      for (const auto& l : s.w->robot->links)
      {
        const auto at = line.find(l + ": ");
        EXPECT(at != std::string::npos, "file:pose", "no pose of " << l << " in " << where << from);
        labels[at] = l;
      }
      std::string left = line.substr(0, labels.begin()->first);
      if (!left.empty() && left.back() == ',')
        left.pop_back();
      const auto values = split(left);
      EXPECT(values.size() == static_cast<std::size_t>(e.x.cols()), "file:values", values.size() << " values in " << where << from);
      for (int j = 0; j < e.x.cols(); ++j)
        EXPECT(same(values[static_cast<std::size_t>(j)], e.x(k, j)), "file:values", "value " << j << " should be " << e.x(k, j) << " in " << where << from);
      const auto poses = s.w->robot->fk(e.x.row(k).head(s.dof).transpose());
      for (auto it = labels.begin(); it != labels.end(); ++it)
      {
        const auto nx = std::next(it);
        const std::size_t b = it->first + it->second.size() + 2;
        std::string part = nx == labels.end() ? line.substr(b) : line.substr(b, nx->first - b);
        if (!part.empty() && part.front() == ',')
          part.erase(0, 1);
        if (nx != labels.end() && !part.empty() && part.back() == ',')
          part.pop_back();
        const auto v = split(part);
        const std::size_t extra = nx == labels.end() ? e.costs.size() + e.cnts.size() : 0;
        EXPECT(v.size() == 7 + extra, "file:columns", v.size() << " values after " << it->second << " in " << where << from);
        const auto& T = poses[s.w->robot->index(it->second)];
        const Eigen::Quaterniond quat(T.linear());
        Eigen::Matrix<double, 7, 1> w, u;
        w << T.translation(), quat.w(), quat.x(), quat.y(), quat.z();
        u = w;
        u.tail(4) *= -1;
        bool one = true, other = true;
        for (int i = 0; i < 7; ++i)
        {
          one = one && same(v[static_cast<std::size_t>(i)], w(i), 1e-9);
          other = other && same(v[static_cast<std::size_t>(i)], u(i), 1e-9);
        }
        EXPECT(one || other, "file:pose", it->second << " is at " << w.transpose() << " but " << part << " in " << where << from);
        c.event("poses_written");
        for (std::size_t i = 0; i < extra; ++i)
        {
          const double y = i < e.costs.size() ? e.costs[i] : e.cnts[i - e.costs.size()];
          EXPECT(same(v[7 + i], y), "file:terms", terms[i] << " is " << y << " but " << v[7 + i] << " in " << where << from);
          c.event("terms_written");
        }
      }
      c.event("rows_written");
    }
    EXPECT(static_cast<bool>(std::getline(f, line)) && line.empty(), "file:rows", "call " << q << " does not end after " << s.n << " rows: " << line << from);
  }
  EXPECT(!std::getline(f, line), "file:rows", "more than the calls wrote: " << line << from);
}
std::string scratchFile()
{
  return "c26_" + std::to_string(::getpid()) + ".csv";
}
struct Removed
{
  std::string path;
  ~Removed() { std::remove(path.c_str()); }
};
bool slow(const Described& d)
{
  int n = 0;
  for (const auto* l : { &d.s.costs, &d.s.cnts })
    for (const auto& t : *l)
      n += t.type == "collision" ? (t.params.get("evaluator_type", 1).asInt() == 1 ? 1 : 2) : 0;
  return n > 1 || d.s.n > 4 || d.s.dof > 3 || d.s.costs.size() + d.s.cnts.size() > 3;
}
void elsewhere(mon::Rng& r, Spec& s)
{
  if (r.chance(0.3))
    s.env->other_joints = { "door", "turntable" };
}
}  // namespace

FAMILY(shown, 1500, 40000)
{
  mon::Rng& r = c.rng;
  trajopt::TermInfo::RegisterMaker("sum_of_joints", &SumTerm::create);
  Described d = describe(r, true);
  elsewhere(r, d.s);
  const Json::Value v = write(r, d.s);
  const std::string from = " from " + showDescription(d.s, v);
  const auto p = build(c, d.s, v, false);
  auto screen = std::make_shared<Screen>();
  const auto show = trajopt::PlotCallback(screen);
  // the other one is for problems which have the joints' values only
  sco::Optimizer::Callback show_prob;
  const auto solver = d.s.env->getStateSolver();
  if (!d.s.use_time)
  {
    auto names = std::make_unique<std::vector<std::string>>(d.s.w->robot->getJointNames());
    show_prob = trajopt::PlotProbCallback(screen, *solver, *names);
    for (auto& n : *names)
      n = "gone";
  }
  for (int k = r.range(1, 3); k > 0; --k)
  {
    const TrajArray x = iterate(r, d.s);
    sco::OptResults res;
    res.x = trajopt::trajToDblVec(x);
    const bool prob = show_prob && r.chance(0.4);
    screen->log.clear();
    (prob ? show_prob : show)(p.get(), res);
    const auto log = screen->log;
    judgeShown(c, log, d.s, *p, x, prob ? "plot-prob" : "plot", prob ? solver.get() : nullptr, from);
    EXPECT(res.x == trajopt::trajToDblVec(x), "changed", "the callback changed the results" << from);
    c.event(prob ? "shown_without_problem" : "shown");
    if (d.s.use_time)
      c.event("shown_with_time");
    c.note(x(0, 0));
  }
}
FAMILY(written, 1500, 40000)
{
  mon::Rng& r = c.rng;
  trajopt::TermInfo::RegisterMaker("sum_of_joints", &SumTerm::create);
  Described d = describe(r, true);
  elsewhere(r, d.s);
  const Json::Value v = write(r, d.s);
  const std::string from = " from " + showDescription(d.s, v);
  const auto p = build(c, d.s, v, false);
  const Removed file{ scratchFile() };
  const auto stream = std::make_shared<std::ofstream>(file.path, std::ios::trunc);
  std::vector<Recorded> calls;
  const auto cb = trajopt::WriteCallback(stream, p);
  judgeFile(c, file.path, d.s, *p, calls, from);
  for (int k = r.range(1, 4); k > 0; --k)
  {
    Recorded e;
    e.x = iterate(r, d.s);
    for (std::size_t i = 0; i < p->getCosts().size(); ++i)
      e.costs.push_back(r.num());
    for (std::size_t i = 0; i < p->getConstraints().size(); ++i)
      e.cnts.push_back(r.chance(0.5) ? 0.0 : std::fabs(r.num()) * std::pow(10.0, r.range(-6, 6)));
    sco::OptResults res;
    res.x = trajopt::trajToDblVec(e.x);
    res.cost_vals = e.costs;
    res.cnt_viols = e.cnts;
    try
    {
      cb(p.get(), res);
    }
    catch (const std::exception& ex)
    {
      EXPECT(false, "file:threw", "writing an iterate" << (d.s.use_time ? " with time" : "") << " failed: " << ex.what() << from);
    }
    EXPECT(res.x == trajopt::trajToDblVec(e.x) && res.cost_vals == e.costs && res.cnt_viols == e.cnts, "changed", "the callback changed the results" << from);
    calls.push_back(e);
    // nothing is held back: it is there if the program ends here
    judgeFile(c, file.path, d.s, *p, calls, from);
    c.event("written");
    if (d.s.use_time)
      c.event("written_with_time");
    c.note(e.x(0, 0));
  }
}
FAMILY(optimised, 90, 3000)
{
  mon::Rng& r = c.rng;
  trajopt::TermInfo::RegisterMaker("sum_of_joints", &SumTerm::create);
  Described d;
  do
    d = describe(r, true);
  while (slow(d) || (d.s.costs.empty() && d.s.cnts.empty()));
  elsewhere(r, d.s);
  const Json::Value v = write(r, d.s);
  const std::string from = " from " + showDescription(d.s, v);
  const auto p = build(c, d.s, v, false), q = build(c, d.s, v, false);
  if (p->getCosts().empty() && p->getConstraints().empty())
    throw mon::AbortCase();
  const int max_iter = r.range(2, 12);
  auto optimiser = [&](const trajopt::TrajOptProb::Ptr& prob) {
    auto o = std::make_unique<sco::BasicTrustRegionSQP>(prob);
    o->getParameters().max_iter = max_iter;
    o->initialize(trajopt::trajToDblVec(prob->GetInitTraj()));
    return o;
  };
  const Removed file{ scratchFile() };
  const auto stream = std::make_shared<std::ofstream>(file.path, std::ios::trunc);
  auto screen = std::make_shared<Screen>();
  std::vector<Recorded> calls;
  std::vector<std::vector<Shown>> shown;
  const auto opt = optimiser(p), plain = optimiser(q);
  // in any order
  std::vector<int> order{ 0, 1 };
  r.shuffle(order);
  for (int k : order)
    opt->addCallback(k == 0 ? trajopt::WriteCallback(stream, p) : trajopt::PlotCallback(screen));
  opt->addCallback([&](sco::OptProb*, sco::OptResults& res) {
    calls.push_back({ trajopt::getTraj(res.x, p->GetVars()), res.cost_vals, res.cnt_viols });
    shown.push_back(screen->log);
    screen->log.clear();
  });
  int plain_calls = 0;
  plain->addCallback([&](sco::OptProb*, sco::OptResults&) { ++plain_calls; });
  try
  {
    Quiet quiet;
    opt->optimize();
    plain->optimize();
  }
  catch (const std::exception& e)
  {
    EXPECT(false, "optimise-threw", e.what() << from);
  }
  const auto& a = opt->results();
  const auto& b = plain->results();
  EXPECT(a.status == b.status && a.x == b.x && a.cost_vals == b.cost_vals && a.cnt_viols == b.cnt_viols && a.n_func_evals == b.n_func_evals && a.n_qp_solves == b.n_qp_solves, "changes-the-run",
         "with callbacks the run ends differently (" << a.n_qp_solves << " solves, not " << b.n_qp_solves << ")" << from);
  EXPECT(static_cast<int>(calls.size()) == plain_calls && !calls.empty(), "calls", calls.size() << " calls, " << plain_calls << " without the others" << from);
  for (std::size_t i = 0; i < calls.size(); ++i)
    judgeShown(c, shown[i], d.s, *p, calls[i].x, "plot", nullptr, from);
  judgeFile(c, file.path, d.s, *p, calls, from);
  EXPECT((calls.back().x - trajopt::getTraj(a.x, p->GetVars())).cwiseAbs().maxCoeff() == 0, "last", "the last iterate recorded is not the result" << from);
  c.event("optimised");
  c.event("iterations_recorded", static_cast<long long>(calls.size()));
  c.note(a.x.empty() ? 0 : a.x[0]);
}
MON_MAIN
