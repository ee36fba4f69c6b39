// C08: the trust region SQP of trajopt_sco.  An exact recording model and callbacks log what the optimizer does; an offline
// checker runs the documented algorithm over the log, taking the solutions of the convex problems from it.
#include "fn_util.h"
#include "qp_model.h"
#include <fstream>
#include <sys/stat.h>
#include <trajopt_common/logging.hpp>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/optimizers.hpp>
using namespace sco;
using namespace scou;

namespace
{
struct Term
{
  Fn f;
  Eigen::VectorXd w;
  PenaltyType pen{ SQUARED };
  bool constraint{ false };
  ConstraintType type{ EQ };
  std::vector<int> vars;
  Eigen::VectorXd sub(const Eigen::VectorXd& x) const
  {
    Eigen::VectorXd s(static_cast<Eigen::Index>(vars.size()));
    for (std::size_t i = 0; i < vars.size(); ++i)
      s(static_cast<Eigen::Index>(i)) = x(vars[i]);
    return s;
  }
  double of(const Eigen::VectorXd& e) const
  {
    double t = 0;
    for (Eigen::Index i = 0; i < e.size(); ++i)
    {
      const double wi = w.size() > 0 ? w(i) : 1.0;
      t += constraint ? (type == EQ ? std::fabs(wi * e(i)) : std::max(0.0, wi * e(i))) : wi * pen_(e(i));
    }
    return t;
  }
  double pen_(double e) const { return scou::pen(pen, e); }
  double exact(const Eigen::VectorXd& x) const { return of(f.val(sub(x))); }
  double model(const Eigen::VectorXd& x0, const Eigen::VectorXd& x) const
  {
    return of(f.val(sub(x0)) + f.jac(sub(x0)) * (sub(x) - sub(x0)));
  }
};
struct Prob : OptProb
{
  std::shared_ptr<QpModel> qp = std::make_shared<QpModel>();
  Prob() : OptProb(ModelType::BPMPD) { model_ = qp; }
};
struct Ev
{
  bool cb{ false };
  // callback
  Eigen::VectorXd x;
  DblVec costs, viols;
  int nqp{ 0 }, nfe{ 0 };
  OptStatus st{ INVALID };
  // solve
  QpModel::Solve s;
};
Eigen::VectorXd ev(const DblVec& v) { return Eigen::Map<const Eigen::VectorXd>(v.data(), static_cast<Eigen::Index>(v.size())); }
struct Quiet
{  // the log level is process wide; what it prints goes nowhere
  int keep;
  trajopt_common::LogLevel lv;
  explicit Quiet(trajopt_common::LogLevel l) : lv(trajopt_common::gLogLevel)
  {
    std::fflush(stdout);
    keep = dup(1);
    const int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
    trajopt_common::gLogLevel = l;
  }
  ~Quiet()
  {
    std::cout.flush();
    std::fflush(stdout);
    dup2(keep, 1);
    close(keep);
    trajopt_common::gLogLevel = lv;
  }
};
struct World
{
  std::shared_ptr<Prob> prob = std::make_shared<Prob>();
  int n{ 0 };
  std::vector<Term> costs, cnts;  // cnts: equalities first, as the problem lists them
  std::vector<std::pair<Eigen::VectorXd, double>> lin_eq, lin_in;
  Eigen::VectorXd lb, ub;
  std::vector<Ev> log;
};
Term randTerm(mon::Case& c, int n, bool constraint, int fkind)
{
  Term t;
  t.constraint = constraint;
  std::vector<int> ids;
  for (int i = 0; i < n; ++i)
    ids.push_back(i);
  c.rng.shuffle(ids);
  t.vars.assign(ids.begin(), ids.begin() + c.rng.range(1, n));
  const int m = c.rng.range(1, 2);
  t.f = randFn(c.rng, m, static_cast<int>(t.vars.size()), fkind);
  if (c.rng.chance(0.5))
  {
    t.w.resize(m);
    for (int i = 0; i < m; ++i)
      t.w(i) = c.rng.chance(0.1) ? 0.0 : c.rng.unif(0.2, 3);
  }
  t.pen = static_cast<PenaltyType>(c.rng.range(0, 2));
  t.type = c.rng.chance(0.5) ? EQ : INEQ;
  return t;
}
void build(mon::Case& c, World& w, int fkind)
{
  w.n = c.rng.range(1, 4);
  std::vector<std::string> names;
  DblVec lo, hi;
  for (int i = 0; i < w.n; ++i)
  {
    names.push_back("x" + std::to_string(i));
    const double a = c.rng.unif(-3, 0);
    lo.push_back(c.rng.chance(0.1) ? -INFINITY : a);
    hi.push_back(c.rng.chance(0.1) ? INFINITY : a + c.rng.unif(0.5, 5));
  }
  w.lb = ev(lo);
  w.ub = ev(hi);
  const VarVector vars = w.prob->createVariables(names, lo, hi);
  const int nc = c.rng.range(1, 3), nk = c.rng.range(0, 3);
  std::vector<Term> ks;
  for (int i = 0; i < nc; ++i)
    w.costs.push_back(randTerm(c, w.n, false, fkind));
  for (int i = 0; i < nk; ++i)
    ks.push_back(randTerm(c, w.n, true, fkind));
  auto pick = [&](const Term& t) {
    VarVector v;
    for (int i : t.vars)
      v.push_back(vars[static_cast<std::size_t>(i)]);
    return v;
  };
  for (std::size_t i = 0; i < w.costs.size(); ++i)
    w.prob->addCost(std::make_shared<CostFromErrFunc>(vfn(w.costs[i].f), mfn(w.costs[i].f), pick(w.costs[i]), w.costs[i].w, w.costs[i].pen, "c" + std::to_string(i)));
  for (const auto& t : ks)
    w.prob->addConstraint(std::make_shared<ConstraintFromErrFunc>(vfn(t.f), mfn(t.f), pick(t), t.w, t.type, "k"));
  for (const auto& t : ks)
    if (t.type == EQ)
      w.cnts.push_back(t);
  for (const auto& t : ks)
    if (t.type == INEQ)
      w.cnts.push_back(t);
  if (c.rng.chance(0.2))
  {  // a linear constraint which the middle of the box satisfies
    AffExpr e;
    Eigen::VectorXd a(w.n);
    double at = 0;
    for (int i = 0; i < w.n; ++i)
    {
      a(i) = c.rng.nonzero(0.3, 1.5);
      e.vars.push_back(vars[static_cast<std::size_t>(i)]);
      e.coeffs.push_back(a(i));
      const double l = std::isfinite(lo[static_cast<std::size_t>(i)]) ? lo[static_cast<std::size_t>(i)] : -1, h = std::isfinite(hi[static_cast<std::size_t>(i)]) ? hi[static_cast<std::size_t>(i)] : l + 1;
      at += a(i) * 0.5 * (l + h);
    }
    e.constant = -at;
    if (c.rng.chance(0.5))
    {
      w.lin_eq.emplace_back(a, -at);
      w.prob->addLinearConstraint(e, EQ);
    }
    else
    {
      e.constant -= 0.2;
      w.lin_in.emplace_back(a, e.constant);
      w.prob->addLinearConstraint(e, INEQ);
    }
    c.event("linear_constraint");
  }
}
double merit(const World& w, const Eigen::VectorXd& x, const std::vector<double>& mu)
{
  double t = 0;
  for (const auto& k : w.costs)
    t += k.exact(x);
  for (std::size_t i = 0; i < w.cnts.size(); ++i)
    t += mu[i] * w.cnts[i].exact(x);
  return t;
}
double modelMerit(const World& w, const Eigen::VectorXd& x0, const Eigen::VectorXd& x, const std::vector<double>& mu)
{
  double t = 0;
  for (const auto& k : w.costs)
    t += k.model(x0, x);
  for (std::size_t i = 0; i < w.cnts.size(); ++i)
    t += mu[i] * w.cnts[i].model(x0, x);
  return t;
}
double maxViol(const World& w, const Eigen::VectorXd& x)
{
  double v = -INFINITY;
  for (const auto& k : w.cnts)
    v = std::max(v, k.exact(x));
  return v;
}
BasicTrustRegionSQPParameters randParams(mon::Case& c)
{
  BasicTrustRegionSQPParameters p;
  p.improve_ratio_threshold = c.rng.chance(0.5) ? 0.25 : c.rng.unif(0.0, 0.9);
  p.min_trust_box_size = c.rng.pick(std::vector<double>{ 1e-4, 1e-3, 1e-2 });
  p.min_approx_improve = c.rng.pick(std::vector<double>{ 1e-6, 1e-4, 1e-2 });
  if (c.rng.chance(0.3))
    p.min_approx_improve_frac = c.rng.pick(std::vector<double>{ 1e-4, 1e-2, 0.1 });
  p.max_iter = c.rng.chance(0.3) ? c.rng.range(1, 3) : c.rng.range(4, 25);
  p.trust_shrink_ratio = c.rng.unif(0.1, 0.7);
  p.trust_expand_ratio = c.rng.unif(1.0, 2.5);
  p.cnt_tolerance = c.rng.pick(std::vector<double>{ 1e-5, 1e-4, 1e-2 });
  p.max_merit_coeff_increases = c.rng.range(c.rng.chance(0.1) ? 0 : 1, 5);
  p.max_qp_solver_failures = c.rng.range(0, 4);
  p.merit_coeff_increase_ratio = c.rng.unif(2, 15);
  p.initial_merit_error_coeff = c.rng.unif(0.2, 15);
  p.inflate_constraints_individually = c.rng.chance(0.5);
  p.trust_box_size = c.rng.chance(0.1) ? c.rng.unif(1e-5, 1e-2) : c.rng.unif(0.05, 2);
  return p;
}

struct Checker
{
  mon::Case& c;
  const World& w;
  BasicTrustRegionSQPParameters p;
  std::vector<double> mu;
  Eigen::VectorXd x;
  double s;
  std::size_t at{ 0 };
  bool ambiguous{ false };
  long solved{ 0 }, nqp{ 0 };
  bool evaluated{ false };
  bool time_limit_possible{ false };
  OptStatus status{ INVALID };

  bool satisfied() const { return w.cnts.empty() || maxViol(w, x) < p.cnt_tolerance; }
  bool tieSatisfied() const { return !w.cnts.empty() && std::fabs(maxViol(w, x) - p.cnt_tolerance) < 1e-9; }
  const Ev& next(bool cb, const char* what)
  {
    EXPECT(at < w.log.size(), "trace-short", "the run ended although the documented algorithm goes on with " << what);
    const Ev& e = w.log[at];
    EXPECT(e.cb == cb, "trace-order", "event " << at << " is a " << (e.cb ? "callback" : "convex solve") << ", the documented algorithm does a " << what);
    ++at;
    return e;
  }
  void checkX(const Ev& e)
  {
    EXPECT((e.x - x).cwiseAbs().maxCoeff() == 0.0, "iterate", "the iterate is [" << e.x.transpose() << "], the accepted point is [" << x.transpose() << "]");
    if (evaluated)
      checkVals(e.costs, e.viols);
    EXPECT(e.nqp == nqp, "count", "n_qp_solves is " << e.nqp << " after " << nqp << " solves");
  }
  void checkVals(const DblVec& costs, const DblVec& viols)
  {
    EXPECT(costs.size() == w.costs.size() && viols.size() == w.cnts.size(), "values", "cost or constraint values are missing");
    for (std::size_t i = 0; i < costs.size(); ++i)
      EXPECT_NEAR_TOL(costs[i], w.costs[i].exact(x), 1e-7, "cost-value", "cost " << i << " at the iterate");
    for (std::size_t i = 0; i < viols.size(); ++i)
      EXPECT_NEAR_TOL(viols[i], w.cnts[i].exact(x), 1e-7, "violation-value", "constraint " << i << " at the iterate");
  }
  /// true: go on; false: the run must end with `status`
  void run()
  {
    bool first = true;
    for (int inc = 0; inc < p.max_merit_coeff_increases; ++inc)
    {
      for (int iter = 1;; ++iter)
      {
        // the time limit may strike at the start of any iteration; then only the final callback is left
        if (time_limit_possible && at + 1 == w.log.size() && w.log[at].cb)
        {
          if (first)
            x = w.log[at].x;
          status = evaluated && satisfied() ? OPT_CONVERGED : w.cnts.empty() ? OPT_CONVERGED : OPT_TIME_LIMIT;
          c.event("time_limit");
          return;
        }
        const Ev& e = next(true, "callback at the start of an iteration");
        if (first)
        {
          x = e.x;
          EXPECT(((w.lb - x).array() <= 1e-12).all() && ((x - w.ub).array() <= 1e-12).all(), "start-bounds", "the first iterate [" << x.transpose() << "] is outside the bounds");
          first = false;
        }
        checkX(e);
        c.event("iteration");
        if (!evaluated)
          evaluated = true;  // the values are checked at the next callback
        const double old_merit = merit(w, x, mu);
        int failures = 0;
        bool accepted = false, conv = false;
        while (s >= p.min_trust_box_size)
        {
          const Ev& q = next(false, "convex solve");
          ++nqp;
          for (int i = 0; i < w.n; ++i)
          {
            const double xi = std::min(std::max(x(i), w.lb(i)), w.ub(i));
            EXPECT(mon::close(q.s.lb(i), std::max(xi - s, w.lb(i)), 1e-12, 1e-12) && mon::close(q.s.ub(i), std::min(xi + s, w.ub(i)), 1e-12, 1e-12),
                   "trust-box", "variable " << i << " is bounded to [" << q.s.lb(i) << ", " << q.s.ub(i) << "] at " << x(i) << " with trust size " << s << " in [" << w.lb(i) << ", " << w.ub(i) << "]");
          }
          if (q.s.status != CVX_SOLVED)
          {
            c.event("solver_failure");
            if (failures < p.max_qp_solver_failures - 1)
            {
              s *= p.trust_shrink_ratio;
              ++failures;
              continue;
            }
            if (failures == p.max_qp_solver_failures - 1)
            {
              s = p.min_trust_box_size;
              ++failures;
              continue;
            }
            status = OPT_FAILED;
            return;
          }
          ++solved;
          const Eigen::VectorXd xn = q.s.x.head(w.n);
          const double mm = modelMerit(w, x, xn, mu), nm = merit(w, xn, mu);
          const double sc = 1 + std::fabs(old_merit) + std::fabs(mm) + std::fabs(nm);
          // the convex problem really is the linearised merit
          EXPECT(std::fabs(q.s.objective - mm) <= 1e-6 * sc, "convex-problem", "the convex problem has the optimum " << q.s.objective << ", the linearised merit there is " << mm);
          for (int t = 0; t < 6; ++t)
          {
            Eigen::VectorXd y(w.n);
            for (int i = 0; i < w.n; ++i)
            {
              const double l = q.s.lb(i), u = q.s.ub(i);
              y(i) = l + (u - l) * c.rng.unit();
              if (t < 3)
                y(i) = xn(i) + (y(i) - xn(i)) * 0.05;
            }
            bool ok = w.lin_eq.empty();
            for (const auto& k : w.lin_in)
              ok = ok && k.first.dot(y) + k.second <= 0;
            if (ok)
              EXPECT(modelMerit(w, x, y, mu) >= mm - 1e-6 * sc, "convex-not-minimal", "the point [" << y.transpose() << "] of the trust box has linearised merit " << modelMerit(w, x, y, mu) << ", the step has " << mm);
          }
          for (const auto& k : w.lin_eq)
            EXPECT(std::fabs(k.first.dot(xn) + k.second) < 1e-6, "linear-constraint", "a step violates a linear equality");
          for (const auto& k : w.lin_in)
            EXPECT(k.first.dot(xn) + k.second < 1e-6, "linear-constraint", "a step violates a linear inequality");
          const double approx = old_merit - mm, exact = old_merit - nm;
          const double tie = 2e-7 * sc;
          if (std::fabs(approx - p.min_approx_improve) < tie || std::fabs(approx - p.min_approx_improve_frac * old_merit) < tie)
          {
            ambiguous = true;
            return;
          }
          if (approx < p.min_approx_improve || approx / old_merit < p.min_approx_improve_frac)
          {
            conv = true;
            status = OPT_CONVERGED;
            break;
          }
          if (std::fabs(exact) < tie || std::fabs(exact - p.improve_ratio_threshold * approx) < tie * (1 + p.improve_ratio_threshold))
          {
            ambiguous = true;
            return;
          }
          if (exact < 0 || exact / approx < p.improve_ratio_threshold)
          {
            s *= p.trust_shrink_ratio;
            c.event("rejected_step");
          }
          else
          {
            x = xn;
            s *= p.trust_expand_ratio;
            accepted = true;
            c.event("accepted_step");
            break;
          }
        }
        (void)accepted;
        if (conv)
          break;
        if (s < p.min_trust_box_size)
        {
          status = OPT_CONVERGED;
          break;
        }
        if (iter >= p.max_iter)
        {
          if (tieSatisfied())
          {
            ambiguous = true;
            return;
          }
          status = satisfied() ? OPT_CONVERGED : OPT_SCO_ITERATION_LIMIT;
          c.event("iteration_limit");
          return;
        }
      }
      if (tieSatisfied())
      {
        ambiguous = true;
        return;
      }
      if (satisfied())
        return;  // converged
      c.event("penalty_increase");
      for (std::size_t i = 0; i < mu.size(); ++i)
      {
        const double v = w.cnts[i].exact(x);
        if (std::fabs(v - p.cnt_tolerance) < 1e-9)
        {
          ambiguous = true;
          return;
        }
        if (!p.inflate_constraints_individually || v > p.cnt_tolerance)
          mu[i] *= p.merit_coeff_increase_ratio;
      }
      s = std::max(s, p.min_trust_box_size / p.trust_shrink_ratio * 1.5);
    }
    status = OPT_PENALTY_ITERATION_LIMIT;
    c.event("penalty_limit");
  }
};
void checkLogs(mon::Case& c, const World& w, const std::string& dir, const Checker& k)
{
  for (const char* f : { "vars", "costs", "constraints", "solver" })
  {
    std::ifstream in(dir + "/trajopt_" + f + ".log");
    EXPECT(static_cast<bool>(in), "log-missing", "no log " << f);
    const std::string row = std::string(f) == "vars" ? "VALUES" : std::string(f) == "costs" ? "COSTS" : std::string(f) == "constraints" ? "CONSTRAINTS" : "Solver";
    std::size_t qp = 0;
    long rows = 0;
    for (std::string line; std::getline(in, line);)
    {
      if (line.rfind(row + ",", 0) != 0 && line != row)
        continue;
      ++rows;
      if (row != "VALUES")
        continue;
      while (qp < w.log.size() && (w.log[qp].cb || w.log[qp].s.status != CVX_SOLVED))
        ++qp;
      EXPECT(qp < w.log.size(), "log-rows", "more logged steps than solves");
      std::istringstream is(line.substr(row.size() + 1));
      int i = 0;
      for (std::string v; std::getline(is, v, ','); ++i)
        EXPECT(i < w.n && std::fabs(std::stod(v) - w.log[qp].s.x(i)) <= 1e-5 * (1 + std::fabs(w.log[qp].s.x(i))), "log-values", "logged value " << v << " of variable " << i);
      EXPECT(i == w.n, "log-values", "a row of " << i << " values");
      ++qp;
    }
    EXPECT(rows == k.solved, "log-rows", "log " << f << " has " << rows << " rows for " << k.solved << " solved steps");
  }
  c.event("log_checked");
}
void oneRun(mon::Case& c, World& w, BasicTrustRegionSQP& opt, bool log, double failure_rate, int sleep_at, double max_time)
{
  w.log.clear();
  w.prob->qp->on_solve = [&](const QpModel::Solve& s) {
    Ev e;
    e.s = s;
    w.log.push_back(e);
  };
  mon::Rng fr(c.rng.next());
  w.prob->qp->inject = [&]() { return fr.unit() < failure_rate ? (fr.chance(0.5) ? CVX_FAILED : CVX_INFEASIBLE) : CVX_SOLVED; };
  DblVec x0;
  for (int i = 0; i < w.n; ++i)
    x0.push_back(c.rng.chance(0.15) ? c.rng.unif(-8, 8) : c.rng.unif(-2, 2));
  c.note(x0[0]);
  opt.initialize(x0);
  std::string dir = "log" + std::to_string(getpid());
  mkdir(dir.c_str(), 0700);
  opt.getParameters().log_dir = dir;
  opt.getParameters().log_results = log;
  opt.getParameters().max_time = max_time;
  const BasicTrustRegionSQPParameters p = opt.getParameters();
  OptStatus st;
  {
    const int lv = c.rng.range(0, 19);
    Quiet q(lv == 0 ? trajopt_common::LevelDebug : lv == 1 ? trajopt_common::LevelInfo : lv == 2 ? trajopt_common::LevelTrace : trajopt_common::LevelFatal);
    st = opt.optimize();
    if (lv <= 2)
    {
      std::cout << opt.results();
      c.event("verbose_run");
    }
  }
  const OptResults& r = opt.results();
  Checker k{ c, w, p, std::vector<double>(w.cnts.size(), p.initial_merit_error_coeff), Eigen::VectorXd(), p.trust_box_size };
  k.time_limit_possible = max_time < 1e6;
  (void)sleep_at;
  EXPECT(r.status == st, "status", "the status returned is not the one in the results");
  EXPECT(static_cast<int>(r.x.size()) == w.n, "result-size", "the result has " << r.x.size() << " values");
  const Eigen::VectorXd rx = ev(r.x);
  EXPECT(((w.lb - rx).array() <= 1e-7).all() && ((rx - w.ub).array() <= 1e-7).all(), "result-bounds", "the result [" << rx.transpose() << "] is outside the bounds");
  EXPECT(w.prob->qp->misuse.empty(), "model-misuse", w.prob->qp->misuse);
  k.run();
  c.event("run");
  if (!k.ambiguous)
  {
    if (k.x.size() == 0 && k.at + 1 == w.log.size())
      k.x = w.log[k.at].x;  // no iteration allowed
    const Ev& e = k.next(true, "final callback");
    k.checkX(e);
    EXPECT(k.at == w.log.size(), "trace-long", "the run goes on after the documented algorithm has ended with " << toString(k.status));
    EXPECT(st == k.status, "status", "the run ended with " << toString(st) << ", the documented outcome is " << toString(k.status));
    EXPECT((rx - k.x).cwiseAbs().maxCoeff() == 0.0, "result", "the result is not the last accepted point");
    EXPECT(r.n_qp_solves == k.nqp, "count", "n_qp_solves is " << r.n_qp_solves << ", there were " << k.nqp);
    if (k.evaluated)
      EXPECT(r.n_func_evals == k.solved + 1, "count", "n_func_evals is " << r.n_func_evals << " after " << k.solved << " steps");
    if (log)
      checkLogs(c, w, dir, k);
    c.event("run_in_step");
  }
  else
    c.event("run_tied");
  // what the results say about the point is true of the point
  if (!r.cost_vals.empty() || !r.cnt_viols.empty())
  {
    k.x = rx;
    k.checkVals(r.cost_vals, r.cnt_viols);
    double t = 0;
    for (double v : r.cost_vals)
      t += v;
    EXPECT_NEAR_TOL(r.total_cost, t, 1e-9, "total-cost", "total cost");
  }
  if (st == OPT_CONVERGED)
    EXPECT(w.cnts.empty() || maxViol(w, rx) < p.cnt_tolerance + 1e-9, "converged-violated", "converged with a violation of " << maxViol(w, rx));
  // nothing the run added stays in the model
  w.prob->qp->update();
  EXPECT(static_cast<int>(w.prob->qp->getVars().size()) == w.n && w.prob->qp->rows() == w.lin_eq.size() + w.lin_in.size(), "model-leftovers",
         w.prob->qp->getVars().size() << " variables and " << w.prob->qp->rows() << " rows are left in the model");
  c.event(std::string("status_") + toString(st));
}
std::shared_ptr<BasicTrustRegionSQP> makeOpt(mon::Case& c, World& w)
{
  std::shared_ptr<BasicTrustRegionSQP> o;
  auto p = randParams(c);
  if (c.rng.chance(0.3))
  {
    p.num_threads = c.rng.range(1, 4);
    o = c.rng.chance(0.5) ? std::make_shared<BasicTrustRegionSQPMultiThreaded>(w.prob) : std::make_shared<BasicTrustRegionSQPMultiThreaded>();
    c.event("multi_threaded");
  }
  else
    o = c.rng.chance(0.5) ? std::make_shared<BasicTrustRegionSQP>(w.prob) : std::make_shared<BasicTrustRegionSQP>();
  o->setProblem(w.prob);
  o->setParameters(p);
  return o;
}
}  // namespace

FAMILY(in_step, 1500, 60000)
{
  World w;
  const int fk = c.rng.range(0, 2);
  build(c, w, fk);
  auto opt = makeOpt(c, w);
  c.trace << "n=" << w.n << " costs=" << w.costs.size() << " cnts=" << w.cnts.size() << " f=" << fk;
  c.note(w.n); c.note(w.costs.size()); c.note(w.cnts.size()); c.note(fk);
  opt->addCallback([&](OptProb* p, OptResults& r) {
    if (p != w.prob.get())
      c.violation("callback", "a callback got another problem");
    Ev e;
    e.cb = true;
    e.x = ev(r.x);
    e.costs = r.cost_vals;
    e.viols = r.cnt_viols;
    e.nqp = r.n_qp_solves;
    e.nfe = r.n_func_evals;
    e.st = r.status;
    w.log.push_back(e);
  });
  const bool log = c.rng.chance(0.15);
  const double rate = c.rng.chance(0.3) ? c.rng.unif(0.05, 0.9) : 0.0;
  const int runs = c.rng.chance(0.3) ? 2 : 1;
  for (int i = 0; i < runs; ++i)
  {
    if (i == 1 && c.rng.chance(0.5))
    {  // other bounds for the second run
      for (int j = 0; j < w.n; ++j)
      {
        w.lb(j) = c.rng.unif(-2, 0);
        w.ub(j) = w.lb(j) + c.rng.unif(0.3, 3);
      }
      if (w.lin_eq.empty() && w.lin_in.empty())
      {
        w.prob->setLowerBounds(DblVec(w.lb.data(), w.lb.data() + w.n));
        w.prob->setUpperBounds(DblVec(w.ub.data(), w.ub.data() + w.n));
      }
      else
      {
        w.lb = ev(w.prob->getLowerBounds());
        w.ub = ev(w.prob->getUpperBounds());
      }
    }
    if (i == 1 && c.rng.chance(0.7))
      opt->setParameters(randParams(c)), opt->getParameters().num_threads = 2;
    oneRun(c, w, *opt, log, rate, -1, std::numeric_limits<double>::max());
  }
}

FAMILY(time_limit, 150, 3000)
{
  World w;
  build(c, w, c.rng.range(0, 2));
  auto opt = makeOpt(c, w);
  opt->getParameters().max_iter = 50;
  const int at = c.rng.range(1, 4);
  int n = 0;
  const bool zero = c.rng.chance(0.3);
  c.trace << "n=" << w.n << " sleep at " << at << " zero=" << zero;
  c.note(at); c.note(zero);
  opt->addCallback([&](OptProb*, OptResults& r) {
    Ev e;
    e.cb = true;
    e.x = ev(r.x);
    e.costs = r.cost_vals;
    e.viols = r.cnt_viols;
    e.nqp = r.n_qp_solves;
    w.log.push_back(e);
    if (++n == at)
      usleep(60000);
  });
  oneRun(c, w, *opt, false, 0, at, zero ? 0.0 : 0.05);
  if (zero)
    EXPECT(w.log.size() <= 1, "time-limit", "the run went on after its time was up");
  else
    EXPECT(n <= at + 1, "time-limit", "the run went on for " << n - at << " callbacks after its time was up");
  c.event("time_limit_run");
}

// convex problems: the result is as good as the stopping rule promises
FAMILY(convex_optimum, 400, 15000)
{
  World w;
  build(c, w, 0);
  for (auto& k : w.cnts)
    (void)k;
  auto opt = makeOpt(c, w);
  auto& p = opt->getParameters();
  p.max_iter = 200;
  p.improve_ratio_threshold = 0.25;
  p.min_trust_box_size = 1e-6;
  p.trust_box_size = c.rng.unif(0.1, 1);
  p.max_merit_coeff_increases = 1;
  p.min_approx_improve = 1e-7;
  p.min_approx_improve_frac = std::numeric_limits<double>::lowest();
  p.max_qp_solver_failures = 3;
  c.trace << "n=" << w.n << " costs=" << w.costs.size() << " cnts=" << w.cnts.size();
  c.note(w.n); c.note(w.costs.size()); c.note(w.cnts.size());
  const std::vector<double> mu(w.cnts.size(), p.initial_merit_error_coeff);
  DblVec x0;
  for (int i = 0; i < w.n; ++i)
    x0.push_back(c.rng.unif(-2, 2));
  c.note(x0[0]);
  opt->initialize(x0);
  w.prob->qp->on_solve = nullptr;
  const OptStatus st = opt->optimize();
  if (w.prob->qp->gave_up > 0 || st == OPT_FAILED || st == OPT_SCO_ITERATION_LIMIT)
  {
    c.event("not_finished");
    return;
  }
  const Eigen::VectorXd x = ev(opt->results().x);
  const double got = merit(w, x, mu);
  // no feasible point is better by more than the stopping rule explains: descend from many points of the box
  const double s = opt->getParameters().trust_box_size;
  for (int t = 0; t < 60; ++t)
  {
    Eigen::VectorXd y(w.n);
    const double h = t < 20 ? 3 : t < 40 ? 0.3 : 0.02;
    for (int i = 0; i < w.n; ++i)
      y(i) = std::min(std::max(x(i) + c.rng.unif(-h, h), w.lb(i)), w.ub(i));
    bool ok = w.lin_eq.empty();
    for (const auto& k : w.lin_in)
      ok = ok && k.first.dot(y) + k.second <= 0;
    for (const auto& k : w.lin_in)
      ok = ok && k.first.dot(x) + k.second <= 1e-9;
    if (!ok)
      continue;
    // along the segment to y the merit is convex: what remains is at most (distance / trust size) times the last improvement
    const double R = (y - x).cwiseAbs().maxCoeff(), slack = 1e-6 * (1 + std::fabs(got)) * std::max(1.0, R / s) + 2e-7 * std::max(1.0, R / std::max(s, 1e-9));
    EXPECT(merit(w, y, mu) >= got - slack - (s < 1e-5 ? 1e3 : 0), "not-optimal", "a convex problem ended at [" << x.transpose() << "] with merit " << got << ", the point [" << y.transpose() << "] has " << merit(w, y, mu));
  }
  c.event("convex_optimum");
}

FAMILY(parameters, 300, 3000)
{
  const BasicTrustRegionSQPParameters a = randParams(c);
  BasicTrustRegionSQPParameters b = a;
  EXPECT(a == b && !(a != b), "params-equal", "equal parameters compare different");
  const int i = c.rng.range(0, 17);
  c.note(i);
  c.trace << "field " << i;
  switch (i)
  {
    case 0: b.improve_ratio_threshold += 0.01; break;
    case 1: b.min_trust_box_size += 0.01; break;
    case 2: b.min_approx_improve += 0.01; break;
    case 3: b.min_approx_improve_frac = 0.5; break;
    case 4: b.max_iter += 1; break;
    case 5: b.trust_shrink_ratio += 0.01; break;
    case 6: b.trust_expand_ratio += 0.01; break;
    case 7: b.cnt_tolerance += 0.01; break;
    case 8: b.max_merit_coeff_increases += 1; break;
    case 9: b.max_qp_solver_failures += 1; break;
    case 10: b.merit_coeff_increase_ratio += 0.01; break;
    case 11: b.max_time = 3; break;
    case 12: b.initial_merit_error_coeff += 0.01; break;
    case 13: b.inflate_constraints_individually = !b.inflate_constraints_individually; break;
    case 14: b.trust_box_size += 0.01; break;
    case 15: b.log_results = !b.log_results; break;
    case 16: b.log_dir += "x"; break;
    default: b.num_threads += 1;
  }
  EXPECT(a != b && !(a == b), "params-different", "parameters that differ in field " << i << " compare equal");
  c.event("compared");
}

FAMILY(refusals, 60, 300)
{
  World w;
  build(c, w, 0);
  BasicTrustRegionSQP none;
  EXPECT_THROW_STD(none.initialize(DblVec(1, 0.0)), "refusal", "an optimizer without a problem was initialised");
  BasicTrustRegionSQP opt(w.prob);
  EXPECT_THROW_STD(opt.optimize(), "refusal", "an optimizer that was not initialised ran");
  EXPECT_THROW_STD(opt.initialize(DblVec(static_cast<std::size_t>(w.n + c.rng.range(1, 3)), 0.0)), "refusal", "a start of the wrong size was accepted");
  EXPECT_THROW_STD(opt.initialize(DblVec(static_cast<std::size_t>(w.n - 1), 0.0)), "refusal", "a start of the wrong size was accepted");
  // a log folder that cannot be written is no reason to die
  opt.initialize(DblVec(static_cast<std::size_t>(w.n), 0.1));
  opt.getParameters().log_results = true;
  opt.getParameters().log_dir = "no/such/folder";
  opt.optimize();
  c.note(w.n);
  c.event("refused");
}
MON_MAIN
