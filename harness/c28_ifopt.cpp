// C28, trajopt_ifopt and trajopt_sqp: problems built, evaluated and solved in several threads at once, on a manipulator and an
// environment they share.  Built with the race detector; besides it, everything is compared bit by bit with one thread alone.
#include "collision_ref.h"
#include "gomp_shim.h"
#include "ifopt_util.h"
#include "pose_util.h"
#include <osqp.h>
#include <thread>
#include <trajopt_ifopt/constraints/cartesian_line_constraint.h>
#include <trajopt_ifopt/constraints/cartesian_position_constraint.h>
#include <trajopt_ifopt/constraints/inverse_kinematics_constraint.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/continuous_collision_numerical_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_constraint.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_evaluators.h>
#include <trajopt_ifopt/constraints/collision/discrete_collision_numerical_constraint.h>
#include <trajopt_ifopt/constraints/joint_acceleration_constraint.h>
#include <trajopt_ifopt/constraints/joint_position_constraint.h>
#include <trajopt_ifopt/constraints/joint_velocity_constraint.h>
#include <trajopt_sqp/ifopt_qp_problem.h>
#include <trajopt_sqp/osqp_eigen_solver.h>
#include <trajopt_sqp/trajopt_qp_problem.h>
#include <trajopt_sqp/trust_region_sqp_solver.h>
using namespace cw;
using namespace trajopt_ifopt;
using namespace trajopt_sqp;
namespace
{
using Doubles = std::vector<double>;
using tcol::CollisionEvaluatorType;
struct Outcome
{
  Doubles values;
  std::string said, misuse;
  bool threw{ false };
  bool operator==(const Outcome& o) const
  {
    return said == o.said && threw == o.threw && values.size() == o.values.size() &&
           (values.empty() || std::memcmp(values.data(), o.values.data(), values.size() * sizeof(double)) == 0);
  }
  void add(const VectorXd& v) { values.insert(values.end(), v.data(), v.data() + v.size()); }
};
template <class F>
void crew(int n, std::uint64_t seed, F f)
{
  std::atomic<int> ready{ 0 };
  std::atomic<bool> go{ false };
  std::vector<std::thread> th;
  for (int i = 0; i < n; ++i)
    th.emplace_back([&, i] {
      gompshim::seedThread(seed + static_cast<std::uint64_t>(i) * 104729);
      ready.fetch_add(1, std::memory_order_relaxed);
      while (!go.load(std::memory_order_relaxed))
        sched_yield();
      f(i);
    });
  while (ready.load(std::memory_order_relaxed) != n)
    sched_yield();
  go.store(true, std::memory_order_relaxed);
  for (auto& t : th)
    t.join();
}
enum Kind { POSE, LINE, IK, HOME, SPEED, ACCELERATION, DISCRETE, CONTINUOUS };
struct Item
{
  Kind kind;
  std::size_t node{ 0 }, other{ 0 };
  int variant{ 0 }, rows{ 1 };
  bool cost{ false }, dynamic{ false };
  CostPenaltyType penalty{ CostPenaltyType::kSquared };
  std::string source, target;
  Isometry3d a, b, c;
  VectorXd v, w;
  trajopt_common::TrajOptCollisionConfig cfg;
};
struct Planned
{
  std::shared_ptr<World> w;
  std::shared_ptr<Env> env;
  int dof{ 1 }, nodes{ 1 };
  VectorXd start;
  std::vector<Bounds> bounds;
  std::vector<Item> items;
  std::vector<VectorXd> at;
  bool trajopt_problem{ true }, solve{ false };
  int iterations{ 3 };
};
std::shared_ptr<Planned> plan(mon::Case& c, const std::shared_ptr<Planned>& like)
{
  mon::Rng& r = c.rng;
  auto p = std::make_shared<Planned>();
  if (like)
  {
    p->dof = like->dof;
    p->w = like->w;
    p->env = like->env;
  }
  else
  {
    p->dof = r.range(1, 3);
    p->w = randWorld(r, p->dof, r.chance(0.3), r.chance(0.3));
    p->env = std::make_shared<Env>(p->w);
    p->w->robot->logging = false;
    p->w->record = false;
    const int dof = p->dof;
    p->w->robot->ik = [dof](const tesseract::kinematics::KinGroupIKInputs& in, const VectorXd& seed) {
      tesseract::kinematics::IKSolutions s;
      for (int k = 0; k < 3; ++k)
        s.push_back(VectorXd(0.5 * seed + VectorXd::LinSpaced(dof, -0.5, 0.5) * (k + in.at(0).pose.translation().x())));
      return s;
    };
  }
  const auto& links = p->w->robot->links;
  p->nodes = r.range(1, 4);
  p->start.resize(p->nodes * p->dof);
  for (Eigen::Index i = 0; i < p->start.size(); ++i)
  {
    p->start(i) = r.unif(-0.8, 0.8);
    p->bounds.emplace_back(-1.5, 1.5);
  }
  bool collision = false;
  p->trajopt_problem = r.chance(0.75);
  for (int k = r.range(1, 4); k > 0; --k)
  {
    Item i;
    i.kind = static_cast<Kind>(r.range(0, 7));
    if (i.kind == SPEED && p->nodes < 2)
      i.kind = HOME;
    if (i.kind == CONTINUOUS && p->nodes < 2)
      i.kind = DISCRETE;
    // accelerations take four states
    if (i.kind == ACCELERATION && p->nodes < 4)
      i.kind = POSE;
    if (i.kind == DISCRETE || i.kind == CONTINUOUS)
    {
      if (collision)
        i.kind = LINE;
      collision = true;
    }
    i.node = static_cast<std::size_t>(r.range(0, p->nodes - 1));
    i.other = static_cast<std::size_t>(r.range(0, p->nodes - 1));
    i.cost = r.chance(0.5);
    i.penalty = r.chance(0.5) ? CostPenaltyType::kSquared : CostPenaltyType::kAbsolute;
    i.v = ifo::randVec(r, p->dof);
    i.w = VectorXd::Constant(p->dof, r.unif(0.2, 3));
    i.a = randPose(r, 0.4);
    i.b = randPose(r, 0.4);
    i.c = randPose(r, 1);
    do
    {
      i.source = r.pick(links);
      i.target = r.pick(links);
    } while (i.source == i.target);
    i.variant = r.range(0, 2);
    i.rows = r.range(1, 3);
    if (i.kind == DISCRETE || i.kind == CONTINUOUS)
    {
      RefConfig ref;
      const auto t = i.kind == DISCRETE ? CollisionEvaluatorType::DISCRETE : r.chance(0.4) ? CollisionEvaluatorType::CONTINUOUS : r.chance(0.5) ? CollisionEvaluatorType::LVS_DISCRETE : CollisionEvaluatorType::LVS_CONTINUOUS;
      i.cfg = makeConfig(r, *p->w, t, ref);
      i.penalty = CostPenaltyType::kHinge;
      i.cost = i.cost && p->trajopt_problem;
      i.dynamic = !p->w->dynamics.empty();
      i.node = i.kind == CONTINUOUS ? static_cast<std::size_t>(r.range(0, p->nodes - 2)) : i.node;
      i.variant = r.range(0, 1);  // a row per contact cannot be in a problem
      if (r.chance(0.1))
        i.variant = 2;
    }
    p->items.push_back(i);
  }
  for (int k = r.range(2, 4); k > 0; --k)
    p->at.push_back(VectorXd(0.7 * ifo::randVec(r, p->start.size())));
  p->solve = r.chance(0.6);
  p->iterations = r.range(2, 5);
  c.trace << "; " << p->nodes << "x" << p->dof << " terms";
  for (const auto& i : p->items)
    c.trace << " " << static_cast<int>(i.kind) << (i.cost ? "c" : "");
  if (p->solve)
    c.trace << " solved";
  c.note(p->nodes);
  c.note(p->dof);
  c.note(p->start(0));
  return p;
}
std::shared_ptr<ConstraintSet> make(const Planned& p, const Item& i, const std::vector<std::shared_ptr<const Var>>& q, const std::string& name)
{
  const std::shared_ptr<const tesseract::kinematics::JointGroup> kin = p.w->robot;
  const VectorXd six = VectorXd::Ones(6);
  switch (i.kind)
  {
    case POSE: return std::make_shared<CartPosConstraint>(q[i.node], kin, i.source, i.target, i.a, i.b, name);
    case LINE: return std::make_shared<CartLineConstraint>(CartLineInfo(kin, i.source, i.target, i.a, i.b, i.c), q[i.node], six, name);
    case IK:
      return std::make_shared<InverseKinematicsConstraint>(i.a, std::make_shared<InverseKinematicsInfo>(p.w->robot, p.w->robot->links.front(), p.w->robot->links.back()), q[i.node], q[i.other], name);
    case HOME: return std::make_shared<JointPosConstraint>(i.v, q[i.node], i.w, name);
    case SPEED: return std::make_shared<JointVelConstraint>(i.v, q, i.w, name);
    case ACCELERATION: return std::make_shared<JointAccelConstraint>(i.v, q, i.w, name);
    case DISCRETE:
    {
      auto e = std::make_shared<SingleTimestepCollisionEvaluator>(p.w->robot, p.env, i.cfg, i.dynamic);
      if (i.variant == 2)
        return std::make_shared<DiscreteCollisionNumericalConstraint>(e, q[i.node], i.rows, true, name);
      return std::make_shared<DiscreteCollisionConstraint>(e, q[i.node], i.rows, i.variant == 1, name);
    }
    default:
    {
      std::shared_ptr<ContinuousCollisionEvaluator> e;
      if (i.cfg.collision_check_config.type == CollisionEvaluatorType::LVS_DISCRETE)
        e = std::make_shared<LVSDiscreteCollisionEvaluator>(p.w->robot, p.env, i.cfg, i.dynamic);
      else
        e = std::make_shared<LVSContinuousCollisionEvaluator>(p.w->robot, p.env, i.cfg, i.dynamic);
      const std::array<std::shared_ptr<const Var>, 2> two{ q[i.node], q[i.node + 1] };
      if (i.variant == 2)
        return std::make_shared<ContinuousCollisionNumericalConstraint>(e, two, false, false, i.rows, true, name);
      return std::make_shared<ContinuousCollisionConstraint>(e, two, false, false, i.rows, i.variant == 1, name);
    }
  }
}
Outcome carryOut(const Planned& p, bool jitter)
{
  Outcome o;
  fakeosqp::ctl() = fakeosqp::Control();
  auto pause = [&] {
    if (jitter)
      gompshim::jitter();
  };
  try
  {
    std::vector<std::unique_ptr<Node>> nodes;
    std::vector<std::shared_ptr<const Var>> q;
    for (int k = 0; k < p.nodes; ++k)
    {
      nodes.push_back(std::make_unique<Node>("node" + std::to_string(k)));
      const auto at = static_cast<std::size_t>(k * p.dof);
      q.push_back(nodes.back()->addVar("joints", p.w->robot->getJointNames(), p.start.segment(k * p.dof, p.dof),
                                       std::vector<Bounds>(p.bounds.begin() + static_cast<long>(at), p.bounds.begin() + static_cast<long>(at) + p.dof)));
    }
    auto nv = std::make_shared<NodesVariables>("trajectory", std::move(nodes));
    pause();
    std::shared_ptr<QPProblem> qp;
    if (p.trajopt_problem)
      qp = std::make_shared<TrajOptQPProblem>(nv);
    else
      qp = std::make_shared<IfoptQPProblem>(nv);
    std::vector<std::shared_ptr<ConstraintSet>> sets;
    for (std::size_t k = 0; k < p.items.size(); ++k)
    {
      pause();
      const auto& i = p.items[k];
      const auto s = make(p, i, q, "term" + std::to_string(k));
      sets.push_back(s);
      if (i.cost)
        qp->addCostSet(s, p.trajopt_problem ? i.penalty : CostPenaltyType::kSquared);
      else
        qp->addConstraintSet(s);
    }
    qp->setup();
    for (const auto& x : p.at)
    {
      qp->setVariables(x.data());
      for (const auto& s : sets)
      {
        pause();
        s->update();
        o.add(s->getValues());
        o.add(s->getCoefficients());
        pause();
        o.add(VectorXd(MatrixXd(s->getJacobian()).reshaped()));
      }
      pause();
      qp->convexify();
      o.add(qp->getExactCosts());
      o.add(qp->getExactConstraintViolations());
      o.add(qp->getGradient());
      o.add(qp->getBoundsLower());
      o.add(qp->getBoundsUpper());
      o.add(VectorXd(MatrixXd(qp->getHessian()).reshaped()));
      o.add(VectorXd(MatrixXd(qp->getConstraintMatrix()).reshaped()));
    }
    if (p.solve)
    {
      qp->setVariables(p.start.data());
      TrustRegionSQPSolver t(std::make_shared<OSQPEigenSolver>());
      t.params.max_iterations = p.iterations;
      t.params.max_qp_solver_failures = 2;
      t.params.max_time = 1e9;
      t.solve(qp);
      const auto& res = t.getResults();
      o.said += "status " + std::to_string(static_cast<int>(t.getStatus()));
      o.add(res.best_var_vals);
      o.add(res.best_costs);
      o.add(res.best_constraint_violations);
      o.add(qp->getVariableValues());
      o.values.push_back(res.overall_iteration);
    }
  }
  catch (const std::exception& e)
  {
    o.threw = true;
    o.said += e.what();
  }
  o.misuse = fakeosqp::ctl().misuse;
  return o;
}
std::string difference(const Outcome& a, const Outcome& b)
{
  std::ostringstream s;
  if (a.said != b.said || a.threw != b.threw)
    s << "'" << a.said << "' together, '" << b.said << "' alone; ";
  if (a.values.size() != b.values.size())
    s << a.values.size() << " numbers together, " << b.values.size() << " alone";
  else
    for (std::size_t i = 0; i < a.values.size(); ++i)
      if (std::memcmp(&a.values[i], &b.values[i], sizeof(double)) != 0)
      {
        s << "number " << i << " of " << a.values.size() << " is " << a.values[i] << " together, " << b.values[i] << " alone";
        break;
      }
  return s.str();
}
struct Quiet
{
  Quiet()
  {
    std::cerr.setstate(std::ios::failbit);
    std::cout.setstate(std::ios::failbit);
    console_bridge::setLogLevel(console_bridge::CONSOLE_BRIDGE_LOG_NONE);
  }
  ~Quiet()
  {
    std::cerr.clear();
    std::cout.clear();
  }
};
}  // namespace

FAMILY(sqp_together, 300, 8000)
{
  mon::Rng& r = c.rng;
  std::vector<std::shared_ptr<Planned>> plans;
  for (int i = r.range(1, 3); i > 0; --i)
    plans.push_back(plan(c, !plans.empty() && r.chance(0.5) ? plans.back() : nullptr));
  const int nt = r.range(2, 5);
  std::vector<std::size_t> which;
  for (int i = 0; i < nt; ++i)
    which.push_back(static_cast<std::size_t>(r.range(0, static_cast<int>(plans.size()) - 1)));
  c.trace << "; " << nt << " threads";
  std::vector<Outcome> got(static_cast<std::size_t>(nt)), alone;
  {
    Quiet quiet;
    crew(nt, r.next(), [&](int id) { got[static_cast<std::size_t>(id)] = carryOut(*plans[which[static_cast<std::size_t>(id)]], true); });
    for (const auto& p : plans)
      alone.push_back(carryOut(*p, false));
  }
  for (std::size_t i = 0; i < got.size(); ++i)
  {
    const auto& a = alone[which[i]];
    EXPECT(!a.threw, "threw", a.said);
    EXPECT(got[i].misuse.empty(), "misuse", got[i].misuse);
    EXPECT(got[i] == a, "different", difference(got[i], a));
    c.event("sqp_compared");
    c.event("sqp_numbers", static_cast<long>(a.values.size()));
    if (plans[which[i]]->solve)
      c.event("solved_together");
    for (std::size_t j = 0; j < i; ++j)
      if (plans[which[j]]->w == plans[which[i]]->w)
        c.event("same_manipulator");
  }
}
MON_MAIN
