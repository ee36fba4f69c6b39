// C28, trajopt: problems described, evaluated and optimised in several threads at once, and one problem's terms evaluated by
// several threads.  Built with the race detector; besides it, everything is compared bit by bit with what one thread alone gets.
#include "gomp_shim.h"
#include "problem_gen.h"
#include <osqp.h>
#include <qpOASES.hpp>
#include <thread>
#include <trajopt_common/clock.hpp>
#include <trajopt_sco/optimizers.hpp>
namespace
{
using Doubles = std::vector<double>;
/// everything a thread learns
struct Outcome
{
  Doubles values;
  std::string said, misuse;
  bool threw{ false };
  bool operator==(const Outcome& o) const
  {
    return said == o.said && threw == o.threw && values.size() == o.values.size() &&
           (values.empty() || std::memcmp(values.data(), o.values.data(), values.size() * sizeof(double)) == 0);
  }
};
template <class F>
void crew(int n, std::uint64_t seed, F f)
{
  std::atomic<int> ready{ 0 };
  std::atomic<bool> go{ false };
  std::vector<std::thread> th;
  for (int i = 0; i < n; ++i)
    th.emplace_back([&, i] {
      gompshim::seedThread(seed + static_cast<std::uint64_t>(i) * 104729);
      ready.fetch_add(1, std::memory_order_relaxed);
      while (!go.load(std::memory_order_relaxed))
        sched_yield();
      f(i);
    });
  while (ready.load(std::memory_order_relaxed) != n)
    sched_yield();
  go.store(true, std::memory_order_relaxed);
  for (auto& t : th)
    t.join();
}
/// once, before there are threads
void prepare()
{
  static const bool done = [] {
    trajopt::TermInfo::RegisterMaker("sum_of_joints", &SumTerm::create);
    // libstdc++ fills a table of the locale's characters as they are asked for, which is a race of its own
    const auto& facet = std::use_facet<std::ctype<char>>(std::locale());
    for (int ch = 0; ch < 256; ++ch)
    {
      facet.narrow(static_cast<char>(ch), 0);
      facet.widen(static_cast<char>(ch));
    }
    return true;
  }();
  (void)done;
}
bool large(const Described& d)
{
  int n = 0;
  for (const auto* l : { &d.s.costs, &d.s.cnts })
    for (const auto& t : *l)
      n += t.type == "collision" ? 1 : 0;
  return n > 1 || d.s.n > 3 || d.s.dof > 3 || d.s.costs.size() + d.s.cnts.size() > 4;
}
struct Planned
{
  Described d;
  Json::Value v;
  std::vector<DblVec> at;  ///< where to evaluate
  bool optimise;
  sco::BasicTrustRegionSQPParameters how;
};
void affine(Doubles& out, const sco::AffExpr& e)
{
  out.push_back(e.constant);
  for (std::size_t i = 0; i < e.coeffs.size(); ++i)
  {
    out.push_back(e.coeffs[i]);
    out.push_back(static_cast<double>(e.vars[i].var_rep->index));
  }
}
std::shared_ptr<Planned> plan(mon::Case& c)
{
  mon::Rng& r = c.rng;
  auto p = std::make_shared<Planned>();
  do
    p->d = describe(r, true);
  while (large(p->d));
  Spec& s = p->d.s;
  s.w->robot->logging = false;
  s.w->record = false;
  p->v = write(r, s);
  const int cols = s.dof + (s.use_time ? 1 : 0);
  for (int i = r.range(2, 4); i > 0; --i)
  {
    DblVec x;
    for (int k = 0; k < s.n; ++k)
      for (int j = 0; j < cols; ++j)
        x.push_back(j == s.dof ? r.unif(s.dt_lo, s.dt_hi) : r.unif(s.lo[static_cast<std::size_t>(j)], s.hi[static_cast<std::size_t>(j)]));
    p->at.push_back(x);
  }
  p->optimise = (!s.costs.empty() || !s.cnts.empty()) && r.chance(0.6);
  p->how.max_iter = r.range(2, 4);
  p->how.max_merit_coeff_increases = r.range(1, 3);
  p->how.trust_box_size = r.unif(0.05, 0.5);
  c.trace << "; " << s.n << "x" << s.dof << (s.use_time ? "t" : "") << " " << s.costs.size() << "+" << s.cnts.size() << (p->optimise ? " optimised" : "");
  c.note(s.n);
  c.note(s.dof);
  c.note(s.costs.size() + 8 * s.cnts.size());
  c.note(p->at[0][0]);
  return p;
}
/// construct, evaluate, convexify and optimise
Outcome carryOut(const Planned& p, bool jitter)
{
  Outcome o;
  fakeosqp::ctl() = fakeosqp::Control();
  fakeqpoases::ctl() = fakeqpoases::Control();
  auto pause = [&] {
    if (jitter)
      gompshim::jitter();
  };
  try
  {
    pause();
    const auto prob = trajopt::ConstructProblem(p.v, p.d.s.env);
    const auto init = prob->GetInitTraj();
    o.values.assign(init.data(), init.data() + init.size());
    for (const auto& b : { prob->getLowerBounds(), prob->getUpperBounds() })
      o.values.insert(o.values.end(), b.begin(), b.end());
    for (const auto& x : p.at)
    {
      for (const auto& f : prob->getCosts())
      {
        pause();
        o.said += f->name() + ";";
        o.values.push_back(f->value(x));
      }
      for (const auto& f : prob->getConstraints())
      {
        pause();
        o.said += f->name() + ";";
        const DblVec v = f->value(x);
        o.values.insert(o.values.end(), v.begin(), v.end());
        o.values.push_back(f->violation(x));
      }
    }
    const auto model = prob->getModel();
    for (const auto& x : p.at)
    {
      for (const auto& f : prob->getCosts())
      {
        pause();
        const auto m = f->convex(x, model.get());
        affine(o.values, m->quad_.affexpr);
        o.values.insert(o.values.end(), m->quad_.coeffs.begin(), m->quad_.coeffs.end());
      }
      for (const auto& f : prob->getConstraints())
      {
        pause();
        const auto m = f->convex(x, model.get());
        for (const auto& e : m->eqs_)
          affine(o.values, e);
        for (const auto& e : m->ineqs_)
          affine(o.values, e);
      }
    }
    if (p.optimise && !(prob->getCosts().empty() && prob->getConstraints().empty()))
    {
      sco::BasicTrustRegionSQP opt(prob);
      opt.setParameters(p.how);
      opt.initialize(trajopt::trajToDblVec(init));
      const auto st = opt.optimize();
      const auto& res = opt.results();
      o.said += "status " + std::to_string(static_cast<int>(st));
      for (const auto* v : { &res.x, &res.cost_vals, &res.cnt_viols })
        o.values.insert(o.values.end(), v->begin(), v->end());
      o.values.push_back(res.n_qp_solves);
      o.values.push_back(res.n_func_evals);
    }
  }
  catch (const std::exception& e)
  {
    o.threw = true;
    o.said += e.what();
  }
  o.misuse = fakeosqp::ctl().misuse + fakeqpoases::ctl().misuse;
  return o;
}
std::string difference(const Outcome& a, const Outcome& b)
{
  std::ostringstream s;
  if (a.said != b.said || a.threw != b.threw)
    s << "'" << a.said << "' together, '" << b.said << "' alone; ";
  if (a.values.size() != b.values.size())
    s << a.values.size() << " numbers together, " << b.values.size() << " alone";
  else
    for (std::size_t i = 0; i < a.values.size(); ++i)
      if (std::memcmp(&a.values[i], &b.values[i], sizeof(double)) != 0)
      {
        s << "number " << i << " of " << a.values.size() << " is " << a.values[i] << " together, " << b.values[i] << " alone";
        break;
      }
  return s.str();
}
}  // namespace

FAMILY(together, 260, 6000)
{
  mon::Rng& r = c.rng;
  prepare();
  std::vector<std::shared_ptr<Planned>> plans;
  for (int i = r.range(1, 3); i > 0; --i)
    plans.push_back(plan(c));
  const int nt = r.range(2, 5);
  std::vector<std::size_t> which;
  for (int i = 0; i < nt; ++i)
    which.push_back(static_cast<std::size_t>(r.range(0, static_cast<int>(plans.size()) - 1)));
  c.trace << "; " << nt << " threads";
  std::vector<Outcome> got(static_cast<std::size_t>(nt)), alone;
  {
    Quiet quiet;
    crew(nt, r.next(), [&](int id) { got[static_cast<std::size_t>(id)] = carryOut(*plans[which[static_cast<std::size_t>(id)]], true); });
    for (const auto& p : plans)
      alone.push_back(carryOut(*p, false));
  }
  for (std::size_t i = 0; i < got.size(); ++i)
  {
    const auto& a = alone[which[i]];
    const auto& p = *plans[which[i]];
    EXPECT(!a.threw, "threw", a.said << " from " << showDescription(p.d.s, p.v));
    EXPECT(got[i].misuse.empty(), "misuse", got[i].misuse);
    EXPECT(got[i] == a, "different", difference(got[i], a) << " from " << showDescription(p.d.s, p.v));
    c.event("compared");
    c.event("numbers", static_cast<long>(a.values.size()));
    if (p.optimise)
      c.event("optimised_together");
    for (std::size_t j = 0; j < i; ++j)
      if (which[j] == which[i])
        c.event("same_environment");
  }
}

// every thread has a clock of its own
FAMILY(clocks, 60, 600)
{
  mon::Rng& r = c.rng;
  using Time = std::chrono::high_resolution_clock;
  const int nt = r.range(2, 6), rounds = r.range(1, 4);
  c.note(nt);
  c.note(rounds);
  std::vector<std::string> wrong(static_cast<std::size_t>(nt));
  crew(nt, r.next(), [&](int id) {
    auto ms = [](Time::duration d) { return std::chrono::duration<double, std::milli>(d).count(); };
    Time::time_point before, after;
    double last = 0;
    for (int k = 0; k < 2 * rounds; ++k)
    {
      gompshim::jitter();
      if (k == 0 || k == rounds)
      {
        before = Time::now();
        trajopt_common::StartClock();
        after = Time::now();
        last = 0;
      }
      gompshim::jitter();
      const auto at_least = ms(Time::now() - after);
      const double t = trajopt_common::GetClock();
      const auto at_most = ms(Time::now() - before);
      if (!(t >= at_least - 1e-6 && t <= at_most + 1e-6 && t >= last))
        wrong[static_cast<std::size_t>(id)] = std::to_string(t) + " ms, between " + std::to_string(at_least) + " and " + std::to_string(at_most);
      last = t;
    }
  });
  for (int i = 0; i < nt; ++i)
  {
    EXPECT(wrong[static_cast<std::size_t>(i)].empty(), "clock", "the clock of thread " << i << " shows " << wrong[static_cast<std::size_t>(i)]);
    c.event("clock_read", 2 * rounds);
  }
}
// one problem, its terms evaluated and convexified by several threads
FAMILY(inside, 500, 9000)
{
  mon::Rng& r = c.rng;
  prepare();
  fakeosqp::ctl() = fakeosqp::Control();
  fakeqpoases::ctl() = fakeqpoases::Control();
  std::shared_ptr<Planned> p;
  do
    p = plan(c);
  while (p->d.s.costs.size() + p->d.s.cnts.size() < 2);
  gompshim::seed = r.next();
  const long r0 = gompshim::regions.load(), d0 = gompshim::distinctSchedules();
  const std::string from = " from " + showDescription(p->d.s, p->v);
  trajopt::TrajOptProb::Ptr prob[2];
  {
    Quiet quiet;
    for (auto& q : prob)
      q = trajopt::ConstructProblem(p->v, p->d.s.env);
  }
  sco::BasicTrustRegionSQPMultiThreaded mt(prob[0]);
  sco::BasicTrustRegionSQP st(prob[1]);
  mt.getParameters().num_threads = r.range(2, 6);
  for (const auto& x : p->at)
  {
    EXPECT(mt.evaluateCosts(prob[0]->getCosts(), x) == st.evaluateCosts(prob[1]->getCosts(), x), "costs", "cost values differ from the single-threaded ones" << from);
    EXPECT(mt.evaluateConstraintViols(prob[0]->getConstraints(), x) == st.evaluateConstraintViols(prob[1]->getConstraints(), x), "violations",
           "violations differ from the single-threaded ones" << from);
    // the models, by what they say of the problem's variables
    Doubles out[2];
    for (int k = 0; k < 2; ++k)
    {
      const sco::BasicTrustRegionSQP& o = k == 0 ? static_cast<const sco::BasicTrustRegionSQP&>(mt) : st;
      const auto nv = static_cast<double>(prob[k]->getVars().size());
      auto sum = [&](const sco::AffExpr& e) {
        // names of auxiliary variables depend on the order they were made in
        out[k].push_back(e.constant);
        for (std::size_t i = 0; i < e.coeffs.size(); ++i)
        {
          const auto idx = static_cast<double>(e.vars[i].var_rep->index);
          out[k].push_back(e.coeffs[i]);
          out[k].push_back(idx < nv ? idx : -1);
        }
      };
      const auto* model = prob[k]->getModel().get();
      auto cm = o.convexifyCosts(prob[k]->getCosts(), x, const_cast<sco::Model*>(model));
      auto km = o.convexifyConstraints(prob[k]->getConstraints(), x, const_cast<sco::Model*>(model));
      for (const auto& m : cm)
      {
        sum(m->quad_.affexpr);
        out[k].insert(out[k].end(), m->quad_.coeffs.begin(), m->quad_.coeffs.end());
        out[k].push_back(static_cast<double>(m->vars_.size()));
      }
      for (const auto& m : km)
      {
        for (const auto& e : m->eqs_)
          sum(e);
        for (const auto& e : m->ineqs_)
          sum(e);
      }
    }
    EXPECT(out[0] == out[1], "models", "the models differ from the single-threaded ones" << from);
    c.event("parallel_compared");
    c.event("terms", static_cast<long>(prob[0]->getCosts().size() + prob[0]->getConstraints().size()));
  }
  c.event("parallel_region", gompshim::regions.load() - r0);
  c.event("new_schedule", gompshim::distinctSchedules() - d0);
}
MON_MAIN
