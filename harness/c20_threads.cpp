// C20: what may be done from several threads at once.  Built with the race detector; the OpenMP runtime is replaced by one the
// detector understands, which delays the threads.  Besides the detector, the outcome is compared with the single-threaded one.
#include "fn_util.h"
#include "gomp_shim.h"
#include "sco_util.h"
#include <osqp.h>
#include <qpOASES.hpp>
#include <thread>
#include <trajopt_common/logging.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/optimizers.hpp>
#include <trajopt_sco/osqp_interface.hpp>
using namespace sco;
using namespace scou;
namespace
{
/// starts all workers at the same moment
class Crew
{
public:
  template <class F>
  static void run(int n, std::uint64_t seed, F f)
  {
    std::atomic<int> ready{ 0 };
    std::atomic<bool> go{ false };
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i)
      th.emplace_back([&, i] {
        gompshim::seedThread(seed + static_cast<std::uint64_t>(i) * 104729);
        ready.fetch_add(1, std::memory_order_relaxed);
        while (!go.load(std::memory_order_relaxed))
          sched_yield();
        f(i);
      });
    while (ready.load(std::memory_order_relaxed) != n)
      sched_yield();
    go.store(true, std::memory_order_relaxed);
    for (auto& t : th)
      t.join();
  }
};
ModelType kind(mon::Case& c)
{
  const int k = c.rng.range(0, 4);
  const ModelType t = k < 2 ? ModelType::OSQP : k < 4 ? ModelType::QPOASES : ModelType::BPMPD;
  c.trace << t << " ";
  c.note(k);
  return t;
}
std::string solverMisuse() { return fakeosqp::ctl().misuse + fakeqpoases::ctl().misuse; }
long gaveUp() { return fakeosqp::ctl().gave_up + fakeqpoases::ctl().gave_up; }
void resetSolvers()
{
  fakeosqp::ctl() = fakeosqp::Control();
  fakeqpoases::ctl() = fakeqpoases::Control();
}
struct Item
{
  Var v;
  std::string name;
  double lb{ -5 }, ub{ 5 }, target{ 0 };
  double eq{ NAN }, in{ NAN };
  bool removed{ false };
  double want() const
  {
    if (!std::isnan(eq))
      return eq;
    double x = std::min(std::max(target, lb), ub);
    return !std::isnan(in) && x > in ? in : x;
  }
};
AffExpr minus(const Var& v, double k)
{
  AffExpr e;
  e.vars.push_back(v);
  e.coeffs.push_back(1);
  e.constant = -k;
  return e;
}

struct Term
{
  Fn f;
  Eigen::VectorXd w;
  PenaltyType pen{ SQUARED };
  bool constraint{ false };
  ConstraintType type{ EQ };
  bool analytic{ true };
};
struct World
{
  int n{ 0 };
  DblVec lo, hi;
  std::vector<Term> costs, cnts;
};
World randWorld(mon::Case& c, int ncosts, int ncnts, int fkind)
{
  World w;
  w.n = c.rng.range(1, 3);
  for (int i = 0; i < w.n; ++i)
  {
    w.lo.push_back(c.rng.unif(-3, 0));
    w.hi.push_back(w.lo.back() + c.rng.unif(0.5, 4));
  }
  auto term = [&](bool k) {
    Term t;
    t.constraint = k;
    const int m = c.rng.range(1, 3);
    t.f = randFn(c.rng, m, w.n, fkind);
    if (k)
    {  // the middle of the box is feasible
      Eigen::VectorXd mid(w.n);
      for (int i = 0; i < w.n; ++i)
        mid(i) = 0.5 * (w.lo[static_cast<std::size_t>(i)] + w.hi[static_cast<std::size_t>(i)]);
      t.f.b -= t.f.val(mid);
    }
    t.pen = static_cast<PenaltyType>(c.rng.range(0, 2));
    t.type = c.rng.chance(0.5) ? EQ : INEQ;
    t.analytic = c.rng.chance(0.7);
    if (c.rng.chance(0.5))
    {
      t.w.resize(m);
      for (int i = 0; i < m; ++i)
        t.w(i) = c.rng.unif(0.2, 3);
    }
    return t;
  };
  for (int i = 0; i < ncosts; ++i)
    w.costs.push_back(term(false));
  for (int i = 0; i < ncnts; ++i)
    w.cnts.push_back(term(true));
  std::stable_partition(w.cnts.begin(), w.cnts.end(), [](const Term& t) { return t.type == EQ; });
  return w;
}
OptProb::Ptr build(const World& w, const ModelType& t, bool jitter)
{
  auto p = std::make_shared<OptProb>(t);
  std::vector<std::string> names;
  for (int i = 0; i < w.n; ++i)
    names.push_back("x" + std::to_string(i));
  const VarVector vars = p->createVariables(names, w.lo, w.hi);
  auto f = [jitter](const Fn& fn) {
    return VectorOfVector::construct([fn, jitter](const Eigen::VectorXd& x) {
      if (jitter)
        gompshim::jitter();
      return fn.val(x);
    });
  };
  int i = 0;
  for (const auto& t2 : w.costs)
  {
    const std::string name = "c" + std::to_string(i++);
    if (t2.analytic)
      p->addCost(std::make_shared<CostFromErrFunc>(f(t2.f), mfn(t2.f), vars, t2.w, t2.pen, name));
    else
      p->addCost(std::make_shared<CostFromErrFunc>(f(t2.f), vars, t2.w, t2.pen, name));
  }
  for (const auto& t2 : w.cnts)
  {
    const std::string name = "k" + std::to_string(i++);
    if (t2.analytic)
      p->addConstraint(std::make_shared<ConstraintFromErrFunc>(f(t2.f), mfn(t2.f), vars, t2.w, t2.type, name));
    else
      p->addConstraint(std::make_shared<ConstraintFromErrFunc>(f(t2.f), vars, t2.w, t2.type, name));
  }
  return p;
}
double weighted(const Term& t, const Eigen::VectorXd& e)
{
  double s = 0;
  for (Eigen::Index i = 0; i < e.size(); ++i)
  {
    const double wi = t.w.size() > 0 ? t.w(i) : 1;
    s += t.constraint ? (t.type == EQ ? std::fabs(wi * e(i)) : std::max(0.0, wi * e(i))) : wi * pen(t.pen, e(i));
  }
  return s;
}
Eigen::VectorXd ev(const DblVec& v) { return Eigen::Map<const Eigen::VectorXd>(v.data(), static_cast<Eigen::Index>(v.size())); }
void regions(mon::Case& c, long r0, long d0)
{
  c.event("parallel_region", gompshim::regions.load() - r0);
  c.event("new_schedule", gompshim::distinctSchedules() - d0);
}
struct Outcome
{
  OptStatus st{ INVALID };
  OptResults r;
  std::string misuse;
  long gave_up{ 0 };
};
}  // namespace

// several threads add to, bound and remove from one model
FAMILY(grow, 1200, 20000)
{
  resetSolvers();
  const ModelType type = kind(c);
  const Model::Ptr m = createModel(type);
  const int nt = c.rng.range(2, 6), rounds = c.rng.range(1, 2), per = c.rng.range(1, 4);
  c.trace << nt << " threads, " << rounds << " rounds, " << per << " variables each";
  c.note(nt); c.note(per);
  std::vector<std::vector<Item>> all(static_cast<std::size_t>(nt));
  for (int round = 0; round < rounds; ++round)
  {
    const std::uint64_t seed = c.rng.next();
    Crew::run(nt, seed, [&](int id) {
      mon::Rng r(seed + static_cast<std::uint64_t>(id));
      auto& mine = all[static_cast<std::size_t>(id)];
      for (int k = 0; k < per; ++k)
      {
        gompshim::jitter();
        Item it;
        it.name = "t" + std::to_string(id) + "_" + std::to_string(mine.size());
        it.lb = r.unif(-3, 0);
        it.ub = it.lb + r.unif(0.5, 4);
        it.target = r.unif(-4, 4);
        if (r.chance(0.5))
          it.v = m->addVar(it.name, it.lb, it.ub);
        else
        {
          it.v = m->addVar(it.name);
          gompshim::jitter();
          m->setVarBounds(it.v, it.lb, it.ub);
        }
        gompshim::jitter();
        const double mid = 0.5 * (it.lb + it.ub);
        switch (r.range(0, 5))
        {
          case 0:
            it.eq = mid;
            m->addEqCnt(minus(it.v, mid), "e");
            break;
          case 1:
            it.in = mid;
            m->addIneqCnt(minus(it.v, mid), "i");
            break;
          case 2:
          {
            const Cnt cn = m->addEqCnt(minus(it.v, mid), "gone");
            gompshim::jitter();
            m->removeCnt(cn);
            break;
          }
          case 3:
            it.removed = true;
            gompshim::jitter();
            m->removeVar(it.v);
            break;
          case 4:
            it.lb -= 0.5;
            it.ub -= 0.25;
            m->setVarBounds(VarVector{ it.v }, DblVec{ it.lb }, DblVec{ it.ub });
            break;
          default:
            break;
        }
        mine.push_back(it);
      }
    });
    m->update();
    std::set<std::string> want, got;
    std::vector<Item*> live;
    for (auto& t : all)
      for (auto& i : t)
        if (!i.removed)
        {
          want.insert(i.name);
          live.push_back(&i);
        }
    const VarVector vs = m->getVars();
    for (std::size_t i = 0; i < vs.size(); ++i)
    {
      got.insert(vs[i].var_rep->name);
      EXPECT(vs[i].var_rep->index == i, "index", "variable at position " << i << " has index " << vs[i].var_rep->index);
    }
    EXPECT(vs.size() == want.size() && got == want, "variables", vs.size() << " variables, the threads left " << want.size());
    if (live.empty())
      return;
    QuadExpr obj;
    for (const auto* i : live)
      exprInc(obj, exprSquare(minus(i->v, i->target)));
    m->setObjective(obj);
    EXPECT(m->optimize() == CVX_SOLVED || gaveUp() > 0, "not-solved", "the model the threads built is not solved");
    if (gaveUp() > 0)
      return;
    for (const auto* i : live)
    {
      const double x = m->getVarValue(i->v);
      EXPECT(std::fabs(x - i->want()) < 1e-3, "value", "variable " << i->name << " is " << x << ", its bounds and rows say " << i->want());
    }
    EXPECT(solverMisuse().empty(), "misuse", solverMisuse());
    c.event("built_together");
  }
}

// the multi-threaded evaluation and convexification, against the single-threaded one
FAMILY(parallel_parts, 1000, 15000)
{
  resetSolvers();
  const ModelType type = kind(c);
  const int fkind = c.rng.range(0, 2);
  const bool linear = fkind == 0;  // then the constraints can be met
  const World w = randWorld(c, c.rng.range(1, 8), c.rng.range(0, 6), fkind);
  c.trace << w.costs.size() << " costs " << w.cnts.size() << " constraints ";
  c.note(w.costs.size()); c.note(w.cnts.size());
  gompshim::seed = c.rng.next();
  const long r0 = gompshim::regions.load(), d0 = gompshim::distinctSchedules();
  const auto p1 = build(w, type, true), p2 = build(w, type, false);
  BasicTrustRegionSQPMultiThreaded mt(p1);
  BasicTrustRegionSQP st(p2);
  mt.getParameters().num_threads = c.rng.range(2, 8);
  c.trace << mt.getParameters().num_threads << " threads";
  c.note(mt.getParameters().num_threads);
  for (int round = 0; round < 2; ++round)
  {
    DblVec x;
    for (int i = 0; i < w.n; ++i)
      x.push_back(c.rng.unif(w.lo[static_cast<std::size_t>(i)], w.hi[static_cast<std::size_t>(i)]));
    EXPECT(mt.evaluateCosts(p1->getCosts(), x) == st.evaluateCosts(p2->getCosts(), x), "costs", "the cost values differ from the single-threaded ones");
    EXPECT(mt.evaluateConstraintViols(p1->getConstraints(), x) == st.evaluateConstraintViols(p2->getConstraints(), x), "violations",
           "the violations differ from the single-threaded ones");
    Model* models[2] = { p1->getModel().get(), p2->getModel().get() };
    double best[2];
    std::size_t nv[2];
    CvxOptStatus status[2];
    for (int k = 0; k < 2; ++k)
    {
      const BasicTrustRegionSQP& o = k == 0 ? static_cast<const BasicTrustRegionSQP&>(mt) : st;
      const auto& p = k == 0 ? p1 : p2;
      const auto cm = o.convexifyCosts(p->getCosts(), x, models[k]);
      const auto km = o.convexifyConstraints(p->getConstraints(), x, models[k]);
      EXPECT(cm.size() == w.costs.size() && km.size() == w.cnts.size(), "count", "models are missing");
      models[k]->update();
      QuadExpr obj;
      for (const auto& m : cm)
      {
        m->addConstraintsToModel();
        exprInc(obj, m->quad_);
      }
      if (linear)
        for (const auto& m : km)
          m->addConstraintsToModel();
      models[k]->update();
      models[k]->setObjective(obj);
      nv[k] = models[k]->getVars().size();
      status[k] = models[k]->optimize();
      if (status[k] != CVX_SOLVED)
        continue;
      const DblVec y = models[k]->getVarValues(models[k]->getVars());
      best[k] = vecSum(o.evaluateModelCosts(cm, y));
      // the linearised problem, item by item
      const DblVec mc = o.evaluateModelCosts(cm, y), mv = o.evaluateModelCntViols(km, y);
      Eigen::VectorXd xs = ev(x), ys(w.n);
      for (int i = 0; i < w.n; ++i)
        ys(i) = y[p->getVars()[static_cast<std::size_t>(i)].var_rep->index];
      for (std::size_t i = 0; i < mc.size(); ++i)
      {
        const double e = weighted(w.costs[i], w.costs[i].f.val(xs) + w.costs[i].f.jac(xs) * (ys - xs));
        EXPECT(std::fabs(mc[i] - e) < 2e-3 * (1 + std::fabs(e)), "model-cost", "model " << i << " gives " << mc[i] << ", the linearised cost is " << e);
      }
      for (std::size_t i = 0; i < mv.size(); ++i)
      {
        const double e = weighted(w.cnts[i], w.cnts[i].f.val(xs) + w.cnts[i].f.jac(xs) * (ys - xs));
        EXPECT(std::fabs(mv[i] - e) < 2e-3 * (1 + std::fabs(e)), "model-violation", "model " << i << " gives " << mv[i] << ", the linearised constraint is " << e);
      }
    }
    EXPECT(nv[0] == nv[1], "aux-variables", nv[0] << " variables with threads, " << nv[1] << " without");
    if (gaveUp() == 0)
    {
      EXPECT(status[0] == CVX_SOLVED && status[1] == CVX_SOLVED, "status", "statuses " << status[0] << " and " << status[1]);
      EXPECT(std::fabs(best[0] - best[1]) < 1e-4 * (1 + std::fabs(best[1])), "optimum", "optimum " << best[0] << " with threads, " << best[1] << " without");
      c.event("parallel_compared");
    }
    for (int k = 0; k < 2; ++k)
    {
      models[k]->update();
      EXPECT(models[k]->getVars().size() == static_cast<std::size_t>(w.n), "leftovers", "auxiliary variables are left in the model");
    }
  }
  EXPECT(solverMisuse().empty(), "misuse", solverMisuse());
  regions(c, r0, d0);
}

// whole runs with threads
FAMILY(parallel_run, 400, 6000)
{
  resetSolvers();
  const ModelType type = kind(c);
  const World w = randWorld(c, c.rng.range(1, 5), c.rng.range(0, 4), c.rng.range(0, 2));
  gompshim::seed = c.rng.next();
  const long r0 = gompshim::regions.load(), d0 = gompshim::distinctSchedules();
  const auto p = build(w, type, true);
  BasicTrustRegionSQPMultiThreaded o(p);
  o.getParameters().num_threads = c.rng.range(2, 6);
  o.getParameters().max_iter = 8;
  o.getParameters().max_merit_coeff_increases = 3;
  c.trace << w.costs.size() << " costs " << w.cnts.size() << " constraints " << o.getParameters().num_threads << " threads";
  c.note(w.costs.size()); c.note(w.cnts.size());
  DblVec x0;
  for (int i = 0; i < w.n; ++i)
    x0.push_back(c.rng.unif(-2, 2));
  c.note(x0[0]);
  o.initialize(x0);
  const OptStatus st = o.optimize();
  const OptResults& r = o.results();
  const Eigen::VectorXd x = ev(r.x);
  for (int i = 0; i < w.n; ++i)
    EXPECT(x(i) >= w.lo[static_cast<std::size_t>(i)] - 1e-4 && x(i) <= w.hi[static_cast<std::size_t>(i)] + 1e-4, "bounds", "the result is outside the bounds");
  EXPECT(r.cost_vals.size() == w.costs.size() && r.cnt_viols.size() == w.cnts.size(), "values", "values are missing");
  for (std::size_t i = 0; i < w.costs.size(); ++i)
    EXPECT_NEAR_TOL(r.cost_vals[i], weighted(w.costs[i], w.costs[i].f.val(x)), 1e-7, "cost-value", "cost " << i);
  for (std::size_t i = 0; i < w.cnts.size(); ++i)
    EXPECT_NEAR_TOL(r.cnt_viols[i], weighted(w.cnts[i], w.cnts[i].f.val(x)), 1e-7, "violation-value", "constraint " << i);
  if (st == OPT_CONVERGED)
    for (double v : r.cnt_viols)
      EXPECT(v < o.getParameters().cnt_tolerance, "converged-violated", "converged with violation " << v);
  EXPECT(st != OPT_FAILED || gaveUp() > 0 || type == ModelType::BPMPD, "failed", "the solver failed");
  EXPECT(solverMisuse().empty(), "misuse", solverMisuse());
  p->getModel()->update();
  EXPECT(p->getModel()->getVars().size() == static_cast<std::size_t>(w.n), "leftovers", "auxiliary variables are left in the model");
  regions(c, r0, d0);
  c.event("parallel_run");
}

// unrelated problems, each in a thread of its own, do not disturb each other
FAMILY(side_by_side, 400, 6000)
{
  resetSolvers();
  const int nt = c.rng.range(2, 5);
  c.trace << nt << " problems ";
  c.note(nt);
  std::vector<World> ws;
  std::vector<ModelType> types;
  std::vector<DblVec> x0;
  std::vector<bool> multi;
  std::vector<Outcome> alone(static_cast<std::size_t>(nt)), together(static_cast<std::size_t>(nt));
  for (int i = 0; i < nt; ++i)
  {
    types.push_back(kind(c));
    ws.push_back(randWorld(c, c.rng.range(1, 3), c.rng.range(0, 2), c.rng.range(0, 1)));
    multi.push_back(c.rng.chance(0.2));
    x0.emplace_back();
    for (int j = 0; j < ws.back().n; ++j)
      x0.back().push_back(c.rng.unif(-2, 2));
    c.note(x0.back()[0]);
  }
  auto run = [&](int i, Outcome& out, bool jitter, bool threads) {
    const auto k = static_cast<std::size_t>(i);
    resetSolvers();
    {
      const auto p = build(ws[k], types[k], jitter);
      std::shared_ptr<BasicTrustRegionSQP> o;
      if (threads && multi[k])
        o = std::make_shared<BasicTrustRegionSQPMultiThreaded>(p);
      else
        o = std::make_shared<BasicTrustRegionSQP>(p);
      o->getParameters().num_threads = 2;
      o->getParameters().max_iter = 6;
      o->getParameters().max_merit_coeff_increases = 2;
      o->initialize(x0[k]);
      out.st = o->optimize();
      out.r = o->results();
    }
    out.misuse = solverMisuse();
    out.gave_up = gaveUp();
  };
  const std::uint64_t seed = c.rng.next();
  Crew::run(nt, seed, [&](int i) { run(i, together[static_cast<std::size_t>(i)], true, true); });
  for (int i = 0; i < nt; ++i)
    run(i, alone[static_cast<std::size_t>(i)], false, false);
  for (int i = 0; i < nt; ++i)
  {
    const auto& a = alone[static_cast<std::size_t>(i)];
    const auto& b = together[static_cast<std::size_t>(i)];
    EXPECT(b.misuse.empty(), "misuse", b.misuse);
    if (multi[static_cast<std::size_t>(i)])
      continue;  // the order of the auxiliary variables, and with it rounding, depends on the schedule
    EXPECT(a.st == b.st && a.r.x == b.r.x && a.r.cost_vals == b.r.cost_vals && a.r.n_qp_solves == b.r.n_qp_solves, "disturbed",
           "problem " << i << " (" << types[static_cast<std::size_t>(i)] << ") ends with " << toString(b.st) << " after " << b.r.n_qp_solves << " solves beside others, with "
                      << toString(a.st) << " after " << a.r.n_qp_solves << " alone");
    c.event("undisturbed");
  }
}
MON_MAIN
