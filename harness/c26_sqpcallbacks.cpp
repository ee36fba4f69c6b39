// C26: what the callbacks of trajopt_sqp show.  They are called at random variable values and by the solver during whole runs;
// a recording screen is compared with the variables as they are then.
#include "ifopt_util.h"
#include "pose_util.h"
#include <tesseract/common/joint_state.h>
#include <tesseract/state_solver/state_solver.h>
#include <tesseract/visualization/markers/arrow_marker.h>
#include <tesseract/visualization/markers/axis_marker.h>
#include <tesseract/visualization/visualization.h>
#include <trajopt_ifopt/constraints/cartesian_position_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_constraint.h>
#include <trajopt_ifopt/constraints/joint_position_constraint.h>
#include <trajopt_sqp/callbacks/cartesian_error_plotter.h>
#include <trajopt_sqp/callbacks/clear_plotter.h>
#include <trajopt_sqp/callbacks/collision_plotter.h>
#include <trajopt_sqp/callbacks/joint_state_plotter.h>
#include <trajopt_sqp/callbacks/wait_for_input.h>
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_sqp/osqp_eigen_solver.h>
#include <trajopt_sqp/sqp_callback.h>
#include <trajopt_sqp/trajopt_qp_problem.h>
#include <trajopt_sqp/trust_region_sqp_solver.h>
using namespace trajopt_ifopt;
using namespace trajopt_sqp;
using namespace pu;
namespace
{
namespace tv = tesseract::visualization;
struct Shown
{
  char what;  // c(lear) a(xis) r(arrow) t(rajectory) w(ait)
  Isometry3d pose{ Isometry3d::Identity() };
  Vector3d from{ Vector3d::Zero() }, to{ Vector3d::Zero() };
  tesseract::common::JointTrajectory traj;
  const void* solver{ nullptr };
};
struct Screen : tv::Visualization
{
  std::vector<Shown> log;
  void plotMarker(const tv::Marker& m, std::string) override
  {
    Shown s{ '?' };
    if (const auto* a = dynamic_cast<const tv::AxisMarker*>(&m))
    {
      s.what = 'a';
      s.pose = a->pose;
    }
    else if (const auto* b = dynamic_cast<const tv::ArrowMarker*>(&m))
    {
      s.what = 'r';
      s.from = b->from;
      s.to = b->to;
    }
    log.push_back(s);
  }
  void plotTrajectory(const tesseract::common::JointTrajectory& t, const tesseract::scene_graph::StateSolver& solver, std::string) override
  {
    Shown s{ 't' };
    s.traj = t;
    s.solver = &solver;
    log.push_back(s);
  }
  void clear(std::string) override { log.push_back({ 'c' }); }
  void waitForInput(std::string) override { log.push_back({ 'w' }); }
};
/// a callback and what it must show, given the variables' values
struct Watched
{
  std::string name;
  std::shared_ptr<SQPCallback> call;
  std::function<void(mon::Case&, const std::vector<Shown>&, const VectorXd&, const std::string&)> judge;
};
struct Setup
{
  ifo::VarSet vars;
  std::shared_ptr<QPProblem> qp;
  std::vector<Pair> pairs;
  std::vector<std::shared_ptr<CartPosConstraint>> cnts;
  std::vector<std::size_t> nodes;
  std::shared_ptr<Screen> screen{ std::make_shared<Screen>() };
  std::vector<Watched> watched;
};
/// the values of a node's joints
VectorXd joints(const ifo::VarSet& v, std::size_t node, const VectorXd& x) { return x.segment(v.joint_index[node], v.dof); }
std::string names(const std::vector<Shown>& l)
{
  std::string s;
  for (const auto& x : l)
    s += x.what;
  return "'" + s + "'";
}
Setup make(mon::Case& c)
{
  mon::Rng& r = c.rng;
  Setup s;
  const Pair first = randPair(r);
  const int dof = static_cast<int>(first.robot->numJoints());
  s.vars = ifo::randVars(c, r.range(1, 4), dof, false, r.chance(0.4));
  const int count = r.range(0, 3);
  for (int k = 0; k < count; ++k)
  {
    Pair p = first;
    while (k > 0 && (p.robot == first.robot || p.robot->numJoints() != dof))
      p = randPair(r);
    const auto node = static_cast<std::size_t>(r.range(0, static_cast<int>(s.vars.joints.size()) - 1));
    s.pairs.push_back(p);
    s.nodes.push_back(node);
    s.cnts.push_back(std::make_shared<CartPosConstraint>(s.vars.joints[node], p.robot, p.source, p.target, p.source_offset, p.target_offset, "pos" + std::to_string(k)));
  }
  if (r.chance(0.3))
    s.qp = std::make_shared<IfoptQPProblem>(s.vars.nv);
  else
    s.qp = std::make_shared<TrajOptQPProblem>(s.vars.nv);
  for (const auto& k : s.cnts)
    r.chance(0.5) ? s.qp->addConstraintSet(k) : s.qp->addCostSet(k, CostPenaltyType::kSquared);
  for (std::size_t k = 0; k < s.vars.joints.size(); ++k)
    if (r.chance(0.6) || (k == 0 && s.cnts.empty()))
      s.qp->addCostSet(std::make_shared<JointPosConstraint>(ifo::randVec(r, dof), s.vars.joints[k], VectorXd::Ones(dof), "home" + std::to_string(k)), CostPenaltyType::kSquared);
  s.qp->setup();
  // the callbacks
  const int n = r.range(1, 6);
  for (int k = 0; k < n; ++k)
  {
    Watched w;
    switch (r.range(0, 4))
    {
      case 0:
        w.name = "clear";
        w.call = std::make_shared<ClearPlotterCallback>(s.screen);
        w.judge = [](mon::Case& c, const std::vector<Shown>& l, const VectorXd&, const std::string& from) { EXPECT(l.size() == 1 && l[0].what == 'c', "clear", "clearing did " << names(l) << from); };
        break;
      case 1:
        w.name = "wait";
        w.call = std::make_shared<WaitForInputCallback>(s.screen);
        w.judge = [](mon::Case& c, const std::vector<Shown>& l, const VectorXd&, const std::string& from) { EXPECT(l.size() == 1 && l[0].what == 'w', "wait", "waiting did " << names(l) << from); };
        break;
      case 2:
      {
        w.name = "joints";
        auto solver = std::make_unique<tesseract::scene_graph::StateSolver>();
        const void* mine = solver.get();
        auto call = std::make_shared<JointStatePlottingCallback>(r.chance(0.1) ? nullptr : s.screen, std::move(solver));
        std::vector<std::size_t> given;
        std::vector<std::shared_ptr<const Var>> list;
        for (int i = r.range(0, 6); i > 0; --i)
        {
          const auto node = static_cast<std::size_t>(r.range(0, static_cast<int>(s.vars.joints.size()) - 1));
          given.push_back(node);
          if (r.chance(0.5))
          {
            call->addVariableSet(list);
            list.clear();
            call->addVariableSet(s.vars.joints[node]);
          }
          else
            list.push_back(s.vars.joints[node]);
        }
        call->addVariableSet(list);
        w.call = call;
        const auto vars = s.vars;
        w.judge = [given, vars, mine](mon::Case& c, const std::vector<Shown>& l, const VectorXd& x, const std::string& from) {
          if (l.empty())
            return;  // there may be no screen
          EXPECT(l.size() == 1 && l[0].what == 't' && l[0].solver == mine, "joints", "plotting a trajectory did " << names(l) << from);
          EXPECT(l[0].traj.states.size() == given.size(), "joints-states", l[0].traj.states.size() << " states of " << given.size() << from);
          for (std::size_t i = 0; i < given.size(); ++i)
          {
            const auto& st = l[0].traj.states[i];
            EXPECT(st.joint_names == vars.joints[given[i]]->name(), "joints-names", "state " << i << " has other joint names" << from);
            const VectorXd q = joints(vars, given[i], x);
            EXPECT(st.position.size() == q.size() && st.position == q, "joints-values", "state " << i << " (node " << given[i] << ") is shown at " << st.position.transpose() << ", it is at " << q.transpose() << from);
            c.event("states_shown");
          }
          c.event("trajectories_shown");
        };
        break;
      }
      case 3:
      {
        w.name = "poses";
        auto call = std::make_shared<CartesianErrorPlottingCallback>(s.screen);
        std::vector<std::size_t> given;
        std::vector<std::shared_ptr<const CartPosConstraint>> list;
        if (!s.cnts.empty())
          for (int i = r.range(0, 4); i > 0; --i)
          {
            const auto k = static_cast<std::size_t>(r.range(0, static_cast<int>(s.cnts.size()) - 1));
            given.push_back(k);
            if (r.chance(0.5))
            {
              call->addConstraintSet(list);
              list.clear();
              call->addConstraintSet(s.cnts[k]);
            }
            else
              list.push_back(s.cnts[k]);
          }
        call->addConstraintSet(list);
        w.call = call;
        const auto pairs = s.pairs;
        const auto nodes = s.nodes;
        const auto vars = s.vars;
        w.judge = [given, pairs, nodes, vars](mon::Case& c, const std::vector<Shown>& l, const VectorXd& x, const std::string& from) {
          EXPECT(l.size() == 3 * given.size(), "poses", "plotting " << given.size() << " errors did " << names(l) << from);
          for (std::size_t i = 0; i < given.size(); ++i)
          {
            const Pair& p = pairs[given[i]];
            const VectorXd q = joints(vars, nodes[given[i]], x);
            const Isometry3d S = poseOf(*p.robot, q, p.source) * p.source_offset, T = poseOf(*p.robot, q, p.target) * p.target_offset;
            const std::string which = p.target_active ? ":target-moves" : "";
            std::vector<const Shown*> axes, arrows;
            for (std::size_t k = 3 * i; k < 3 * i + 3; ++k)
              (l[k].what == 'a' ? axes : arrows).push_back(&l[k]);
            EXPECT(axes.size() == 2 && arrows.size() == 1 && arrows[0]->what == 'r', "poses", "plotting an error did " << names(l) << from);
            const bool as = axes[0]->pose.isApprox(S, 1e-9), bt = axes[1]->pose.isApprox(T, 1e-9), at = axes[0]->pose.isApprox(T, 1e-9), bs = axes[1]->pose.isApprox(S, 1e-9);
            EXPECT(as || bs, "poses-current", "the current pose is not shown where it is, " << S.translation().transpose() << from);
            EXPECT((as && bt) || (at && bs), "poses-target" + which, "the target is shown at " << axes[as ? 1 : 0]->pose.translation().transpose() << ", it is at " << T.translation().transpose() << from);
            EXPECT((arrows[0]->from - S.translation()).norm() < 1e-9 && (arrows[0]->to - T.translation()).norm() < 1e-9, "poses-arrow" + which, "the arrow does not lead from the current pose to the target" << from);
            c.event("poses_shown");
            c.event(p.target_active ? "moving_targets" : "resting_targets");
          }
        };
        break;
      }
      default:
        w.name = "collisions";
        w.call = std::make_shared<CollisionPlottingCallback>(s.screen);
        w.judge = [](mon::Case& c, const std::vector<Shown>& l, const VectorXd&, const std::string& from) {
          for (const auto& x : l)
            EXPECT(x.what != 'w' && x.what != 'c', "collisions", "plotting collisions did " << names(l) << from);
        };
    }
    s.watched.push_back(w);
  }
  return s;
}
/// stdout goes nowhere
struct Mute
{
  std::ostringstream sink;
  std::streambuf* old{ std::cout.rdbuf(sink.rdbuf()) };
  ~Mute() { std::cout.rdbuf(old); }
};
struct Probe : SQPCallback
{
  std::function<bool(const QPProblem&, const SQPResults&)> f;
  bool execute(const QPProblem& p, const SQPResults& r) override { return f(p, r); }
};
}  // namespace

FAMILY(sqp_called, 4000, 80000)
{
  mon::Rng& r = c.rng;
  Setup s = make(c);
  Mute mute;
  for (int k = r.range(1, 4); k > 0; --k)
  {
    const VectorXd x = ifo::randVec(r, s.vars.x.size());
    s.qp->setVariables(x.data());
    for (std::size_t i = 0; i < s.watched.size(); ++i)
    {
      s.screen->log.clear();
      const SQPResults results;
      const bool on = s.watched[i].call->execute(*s.qp, results);
      EXPECT(on, "stops:" + s.watched[i].name, "the callback stops the run");
      s.watched[i].judge(c, s.screen->log, x, " called for");
      EXPECT(s.qp->getVariableValues() == x, "moves:" + s.watched[i].name, "the callback moved the variables");
      c.event("call_" + s.watched[i].name);
    }
    c.note(x(0));
  }
}
FAMILY(sqp_runs, 300, 6000)
{
  mon::Rng& r = c.rng;
  Setup s = make(c);
  Mute mute;
  const int iters = r.range(2, 12);
  auto run = [&](const std::function<void(TrustRegionSQPSolver&)>& prepare) {
    TrustRegionSQPSolver t(std::make_shared<OSQPEigenSolver>());
    t.params.max_iterations = iters;
    s.qp->setVariables(s.vars.x.data());
    prepare(t);
    t.solve(s.qp);
    return std::make_pair(t.getStatus(), t.getResults());
  };
  int plain_calls = 0;
  const auto plain = run([&](TrustRegionSQPSolver& t) {
    auto p = std::make_shared<Probe>();
    p->f = [&](const QPProblem&, const SQPResults&) {
      ++plain_calls;
      return true;
    };
    t.registerCallback(p);
  });
  const VectorXd end = s.qp->getVariableValues();
  int calls = 0;
  std::vector<std::pair<std::vector<Shown>, VectorXd>> all;
  const auto with = run([&](TrustRegionSQPSolver& t) {
    // between the callbacks a probe takes down what each has shown
    auto first = std::make_shared<Probe>();
    first->f = [&](const QPProblem&, const SQPResults&) {
      ++calls;
      s.screen->log.clear();
      return true;
    };
    t.registerCallback(first);
    for (const auto& w : s.watched)
    {
      t.registerCallback(w.call);
      auto p = std::make_shared<Probe>();
      p->f = [&](const QPProblem&, const SQPResults& res) {
        // the point the results call the best is the one shown
        all.emplace_back(s.screen->log, VectorXd(res.best_var_vals.head(s.vars.x.size())));
        s.screen->log.clear();
        return true;
      };
      t.registerCallback(p);
    }
  });
  EXPECT(calls == plain_calls, "calls", calls << " calls, " << plain_calls << " without the others");
  EXPECT(all.size() == static_cast<std::size_t>(calls) * s.watched.size(), "calls", all.size() << " callbacks called");
  for (std::size_t i = 0; i < all.size(); ++i)
    s.watched[i % s.watched.size()].judge(c, all[i].first, all[i].second, " in iteration " + std::to_string(i / s.watched.size()));
  EXPECT(with.first == plain.first && with.second.best_var_vals == plain.second.best_var_vals && s.qp->getVariableValues() == end && with.second.overall_iteration == plain.second.overall_iteration,
         "changes-the-run", "with callbacks the run ends differently, with " << toString(with.first) << " after " << with.second.overall_iteration << " iterations, without with " << toString(plain.first) << " after " << plain.second.overall_iteration);
  c.event("sqp_runs");
  c.event("sqp_iterations", calls);
  c.note(end(0));
}
MON_MAIN
