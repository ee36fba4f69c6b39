// C18: the OSQP and qpOASES adapters.  The third-party solvers are replaced by exact stand-ins which keep their interface
// contract (what is copied, what is kept, what an update may change) and can report any outcome.
#include "model_history.h"
#include <fstream>
#include <unistd.h>
#include <trajopt_sco/osqp_interface.hpp>
#include <trajopt_sco/qpoases_interface.hpp>
using namespace sco;
using namespace mh;

namespace
{
struct Back
{
  bool osqp;
  std::shared_ptr<OSQPModelConfig> cfg;
  Factory make;
  Tol tol;
};
Back pick(mon::Case& c, int which = -1)
{
  fakeosqp::ctl() = fakeosqp::Control();
  fakeqpoases::ctl() = fakeqpoases::Control();
  Back b;
  b.osqp = which < 0 ? c.rng.chance(0.6) : which == 0;
  b.tol.feas = 1e-6;
  b.tol.opt = 1e-6;
  if (b.osqp)
  {
    if (c.rng.chance(0.8))
    {
      b.cfg = std::make_shared<OSQPModelConfig>();
      b.cfg->update_workspace = c.rng.chance(0.6);
      b.cfg->settings.warm_starting = c.rng.chance(0.7) ? 1 : 0;
      b.cfg->settings.max_iter = c.rng.range(10, 10000);
      b.cfg->settings.eps_abs = c.rng.unif(1e-7, 1e-3);
      b.cfg->settings.eps_rel = c.rng.unif(1e-7, 1e-3);
      b.cfg->settings.rho = c.rng.unif(0.01, 1);
    }
    auto cfg = b.cfg;
    b.make = [cfg] { return createModel(ModelType::OSQP, cfg); };
    b.tol.excuse = [] { return fakeosqp::ctl().gave_up > 0; };
    c.trace << "osqp" << (b.cfg ? b.cfg->update_workspace ? " update" : " rebuild" : " default") << (b.cfg && b.cfg->settings.warm_starting ? " warm " : " ");
    c.note(b.cfg ? 1 + b.cfg->update_workspace : 0);
  }
  else
  {
    b.make = [] { return createModel(ModelType::QPOASES); };
    b.tol.excuse = [] { return fakeqpoases::ctl().gave_up > 0; };
    c.trace << "qpoases ";
  }
  return b;
}
void after(mon::Case& c, const Back& b)
{
  const std::string& m = b.osqp ? fakeosqp::ctl().misuse : fakeqpoases::ctl().misuse;
  EXPECT(m.empty(), b.osqp ? "osqp-misuse" : "qpoases-misuse", m);
  if (b.osqp)
  {
    EXPECT(fakeosqp::ctl().live == 0, "osqp-leak", fakeosqp::ctl().live << " solver workspaces left (or freed twice) after the model is gone");
    c.event("osqp_setup", fakeosqp::ctl().setups);
    c.event("osqp_update", fakeosqp::ctl().updates_mat);
    c.event("osqp_warm_start", fakeosqp::ctl().warm_starts);
    c.event("osqp_solve", fakeosqp::ctl().solves);
    c.event("gave_up", fakeosqp::ctl().gave_up);
    if (fakeosqp::ctl().setups > 0)
    {
      const OSQPModelConfig def;
      const OSQPSettings& w = b.cfg ? b.cfg->settings : def.settings;
      const OSQPSettings& g = fakeosqp::ctl().last_settings;
      EXPECT(g.max_iter == w.max_iter && g.eps_abs == w.eps_abs && g.eps_rel == w.eps_rel && g.warm_starting == w.warm_starting && g.polishing == w.polishing,
             "osqp-settings", "the solver was not set up with the configured settings");
    }
  }
  else
  {
    c.event("qpoases_init", fakeqpoases::ctl().inits);
    c.event("qpoases_hotstart", fakeqpoases::ctl().hotstarts);
    c.event("gave_up", fakeqpoases::ctl().gave_up);
  }
}
}  // namespace

FAMILY(one_problem, 1500, 60000)
{
  const Back b = pick(c);
  oneProblem(c, b.make, b.tol);
  after(c, b);
}
FAMILY(infeasible_problem, 400, 15000)
{
  const Back b = pick(c);
  infeasibleProblem(c, b.make, b.tol);
  after(c, b);
}
FAMILY(histories, 2500, 80000)
{
  const Back b = pick(c);
  history(c, b.make, b.tol);
  after(c, b);
}
FAMILY(two_models, 300, 8000)
{
  const Back b = pick(c);
  twoModels(c, b.make, b.tol);
  after(c, b);
}
FAMILY(large_problem, 16, 200)
{
  const Back b = pick(c);
  largeProblem(c, b.make, 10, 45, 1e-5);
  after(c, b);
}

// the file a model writes describes that model
FAMILY(written_model, 800, 15000)
{
  mon::Rng& r = c.rng;
  OSQPModel m;
  const int n = r.range(1, 5);
  auto num = [&] { return r.chance(0.3) ? static_cast<double>(r.range(-1, 2)) : r.range(-999, 999) / 16.0; };
  VarVector vars;
  DblVec lb, ub;
  for (int i = 0; i < n; ++i)
  {
    lb.push_back(num() - 70);
    ub.push_back(num() + 70);
    vars.push_back(static_cast<Model&>(m).addVar("v" + std::to_string(i), lb.back(), ub.back()));
  }
  m.update();
  auto aff = [&] {
    AffExpr a(num());
    for (int i = r.range(1, 4); i > 0; --i)
    {
      a.vars.push_back(r.pick(vars));
      a.coeffs.push_back(num());
    }
    return a;
  };
  std::vector<std::pair<AffExpr, bool>> rows;
  for (int i = r.range(0, 5); i > 0; --i)
  {
    rows.emplace_back(aff(), r.chance(0.4));
    if (rows.back().second)
      m.addEqCnt(rows.back().first, "eq");
    else
      m.addIneqCnt(rows.back().first, "in");
  }
  QuadExpr q(aff());
  for (int i = r.range(0, 4); i > 0; --i)
  {
    q.vars1.push_back(r.pick(vars));
    q.vars2.push_back(r.pick(vars));
    q.coeffs.push_back(num());
  }
  m.setObjective(q);
  m.update();
  c.note(n);
  c.note(q.affexpr.constant);
  c.note(static_cast<int>(rows.size()));
  char dir[] = "/tmp/c18_XXXXXX";
  if (mkdtemp(dir) == nullptr)
    return;
  const std::string file = std::string(dir) + "/m.lp";
  m.writeToFile(file);
  std::vector<std::string> L;
  {
    std::ifstream in(file);
    for (std::string l; std::getline(in, l);)
      if (!l.empty() && l[0] != '\\')
        L.push_back(l);
  }
  ::unlink(file.c_str());
  ::rmdir(dir);
  c.event("written");
  std::string all;
  for (auto& l : L)
    all += l + "\n";
  auto find = [&](const std::string& w) {
    for (std::size_t i = 0; i < L.size(); ++i)
      if (L[i] == w)
        return i;
    return L.size();
  };
  const std::size_t a = find("Minimize"), b = find("Subject To"), d = find("Bounds"), e = find("End");
  EXPECT(a < b && b < d && d < e && e < L.size(), "written:sections", all);
  std::string obj;
  for (std::size_t i = a + 1; i < b; ++i)
    obj += L[i] + " ";
  try
  {
    EXPECT(near(readText(obj, n), toPoly(q, n), 1), "written:objective", "'" << obj << "' is not " << str(toPoly(q, n)));
    EXPECT(d - b - 1 == rows.size(), "written:constraints", all);
    for (std::size_t i = 0; i < rows.size(); ++i)
    {
      const std::string& l = L[b + 1 + i];
      const std::string op = rows[i].second ? " = 0" : " <= 0";
      const std::size_t at = l.find(op);
      EXPECT(at != std::string::npos && at + op.size() == l.size() && near(readText(l.substr(0, at), n), toPoly(rows[i].first, n), 1), "written:constraints",
             "'" << l << "' is not row " << i);
    }
    EXPECT(e - d - 1 == vars.size(), "written:bounds", all);
    for (std::size_t i = 0; i < vars.size(); ++i)
    {
      std::istringstream in(L[d + 1 + i]);
      double lo = 0, up = 0;
      std::string o1, o2, v;
      in >> lo >> o1 >> v >> o2 >> up;
      EXPECT(o1 == "<=" && o2 == "<=" && v == "v" + std::to_string(i) && std::fabs(lo - lb[i]) < 1e-3 && std::fabs(up - ub[i]) < 1e-3, "written:bounds", L[d + 1 + i]);
    }
  }
  catch (const std::runtime_error& x)
  {
    EXPECT(false, "written:text", all << ": " << x.what());
  }
  catch (const std::logic_error& x)
  {
    EXPECT(false, "written:text", all << ": " << x.what());
  }
}

// a rapid series of re-solves of problems of the same size whose rows and objective change places: data may be updated in
// place only where the structure really is the same
FAMILY(same_size, 1200, 40000)
{
  const Back k = pick(c);
  {
    Beside b(k.tol);
    b.m = k.make();
    addVars(c, b, c.rng.range(2, 4), true);
    b.m->update();
    std::map<int, double> mid;
    for (int i : b.live())
      mid[i] = b.mv[static_cast<std::size_t>(i)].mid;
    const int rows = c.rng.range(1, 3);
    for (int r = 0; r < rows; ++r)
      addCnt(c, b, mid, r == 0);
    setObjective(c, b, false);
    for (int s = c.rng.range(3, 7); s > 0; --s)
    {
      solveAndCompare(c, b);
      const int what = c.rng.range(0, 3);
      c.trace << what;
      c.note(what);
      if (what <= 1)
      {  // replace a row by another with the same number of terms
        std::vector<MC*> live;
        for (auto& x : b.mc)
          if (x.live)
            live.push_back(&x);
        MC* old = c.rng.pick(live);
        b.m->removeCnt(old->cnt);
        old->live = false;
        MC n;
        n.type = old->type;
        const auto lv = b.live();
        std::vector<int> order = lv;
        c.rng.shuffle(order);
        std::set<int> vars;
        for (const auto& t : old->terms)
          vars.insert(t.first);
        double at = 0;
        for (std::size_t i = 0; i < vars.size(); ++i)
        {
          const double w = c.rng.nonzero(0.3, 2);
          n.terms.emplace_back(order[i], w);
          at += w * mid.at(order[i]);
        }
        n.constant = -at - (n.type == EQ ? 0.0 : c.rng.unif(0, 0.5));
        n.cnt = n.type == EQ ? b.m->addEqCnt(b.aff(n.terms, n.constant), "r") : b.m->addIneqCnt(b.aff(n.terms, n.constant), "r");
        b.mc.push_back(n);
      }
      else if (what == 2)
      {  // an objective of the same shape on other variables
        const auto lv = b.live();
        b.g.clear();
        b.q.clear();
        QuadExpr e;
        const int i = c.rng.pick(lv), j = c.rng.pick(lv);
        const double w = c.rng.unif(0.5, 2), t = c.rng.unif(-3, 3);
        for (const auto& x : { std::make_pair(i, w), std::make_pair(j, 1.5 * w) })
        {
          const Var& v = b.mv[static_cast<std::size_t>(x.first)].var;
          e.vars1.push_back(v);
          e.vars2.push_back(v);
          e.coeffs.push_back(x.second);
          b.q.emplace_back(x.first, x.first, x.second);
        }
        for (int a : lv)
          b.g.emplace_back(a, a == i ? t : 0.3);
        b.c0 = 0;
        e.affexpr = b.aff(b.g, 0);
        b.m->setObjective(e);
      }
      else
        setObjective(c, b, false);
    }
    solveAndCompare(c, b);
  }
  after(c, k);
  c.event("same_size");
}

// every outcome the OSQP library can report is passed on as what it is, and leaves the model usable
FAMILY(osqp_outcomes, 600, 15000)
{
  const Back k = pick(c, 0);
  {
    Beside b(k.tol);
    b.m = k.make();
    addVars(c, b, c.rng.range(1, 3));
    b.m->update();
    const auto in = inside(c, b);
    for (int i = c.rng.range(0, 2); i > 0; --i)
      addCnt(c, b, in, false);
    setObjective(c, b, false);
    for (int s = c.rng.range(2, 6); s > 0; --s)
    {
      auto& f = fakeosqp::ctl();
      f.statuses.clear();
      f.solve_ret.clear();
      f.setup_ret.clear();
      f.vec_ret.clear();
      f.mat_ret.clear();
      const int what = c.rng.range(0, 5);
      c.trace << ' ' << what;
      c.note(what);
      if (what == 0)
      {
        const int st = c.rng.range(OSQP_SOLVED, OSQP_UNSOLVED + 1);
        c.trace << '(' << st << ')';
        c.note(st);
        f.statuses.push_back(st);
        const CvxOptStatus got = b.m->optimize();
        const CvxOptStatus want = st <= OSQP_SOLVED_INACCURATE ? CVX_SOLVED : st <= OSQP_DUAL_INFEASIBLE_INACCURATE ? CVX_INFEASIBLE : CVX_FAILED;
        EXPECT(got == want, "osqp-status", "the library reported status " << st << ", the model answered " << int(got));
        c.event("status_injected");
      }
      else if (what == 1)
      {
        f.solve_ret.push_back(c.rng.range(1, OSQP_LAST_ERROR_PLACE));
        EXPECT(b.m->optimize() == CVX_FAILED, "osqp-error", "a failed solve was not reported as failed");
        c.event("error_injected");
      }
      else if (what == 2)
      {
        const int code = c.rng.range(1, 5);
        const long before = f.setups;
        f.setup_ret.push_back(code);
        const CvxOptStatus got = b.m->optimize();
        if (f.setups > before)
          EXPECT(got == CVX_FAILED, "osqp-error", "a failed setup was not reported as failed");
        c.event("setup_error_injected");
      }
      else if (what == 3)
      {  // an update that fails must be replaced by a new setup
        (c.rng.chance(0.5) ? f.vec_ret : f.mat_ret).push_back(c.rng.range(1, 4));
        setObjective(c, b, false);
        solveAndCompare(c, b);
        c.event("update_error_injected");
      }
      else
      {
        if (c.rng.chance(0.5))
          setObjective(c, b, false);
        solveAndCompare(c, b);
      }
    }
    auto& f = fakeosqp::ctl();
    f.statuses.clear();
    f.solve_ret.clear();
    f.setup_ret.clear();
    f.vec_ret.clear();
    f.mat_ret.clear();
    solveAndCompare(c, b);
  }
  after(c, k);
}

FAMILY(qpoases_outcomes, 500, 15000)
{
  const Back k = pick(c, 1);
  Beside b(k.tol);
  b.m = k.make();
  addVars(c, b, c.rng.range(1, 3));
  b.m->update();
  const auto in = inside(c, b);
  for (int i = c.rng.range(0, 2); i > 0; --i)
    addCnt(c, b, in, false);
  setObjective(c, b, false);
  for (int s = c.rng.range(2, 6); s > 0; --s)
  {
    auto& f = fakeqpoases::ctl();
    f.hot_ret.clear();
    f.init_ret.clear();
    const int what = c.rng.range(0, 3);
    c.trace << ' ' << what;
    c.note(what);
    if (what == 0)
    {  // a hot start that fails is followed by a cold start of the same problem
      f.hot_ret.push_back(c.rng.pick(std::vector<int>{ qpOASES::RET_HOTSTART_FAILED, qpOASES::RET_MAX_NWSR_REACHED, qpOASES::RET_HOTSTART_STOPPED_INFEASIBILITY }));
      solveAndCompare(c, b);
      c.event("hotstart_failure_injected");
    }
    else if (what == 1)
    {
      const int code = c.rng.pick(std::vector<int>{ qpOASES::RET_INIT_FAILED, qpOASES::RET_INIT_FAILED_INFEASIBILITY, qpOASES::RET_INIT_FAILED_UNBOUNDEDNESS, qpOASES::RET_MAX_NWSR_REACHED });
      f.hot_ret.push_back(qpOASES::RET_HOTSTART_FAILED);
      f.init_ret.push_back(code);
      const CvxOptStatus got = b.m->optimize();
      EXPECT(got != CVX_SOLVED, "qpoases-status", "a failed solve (" << code << ") was reported as solved");
      EXPECT((got == CVX_INFEASIBLE) == (code == qpOASES::RET_INIT_FAILED_INFEASIBILITY), "qpoases-status", "outcome " << code << " reported as " << int(got));
      c.event("init_failure_injected");
    }
    else
    {
      if (c.rng.chance(0.5))
        setObjective(c, b, false);
      solveAndCompare(c, b);
    }
  }
  after(c, k);
}
MON_MAIN
