// C19: the OSQP adapter of trajopt_sqp gives OSQP exactly the problem it was given, and reports what OSQP did.
#include "sqp_util.h"
#include "dense_qp.h"
#include <OsqpEigen/OsqpEigen.h>
#include <trajopt_sqp/osqp_eigen_solver.h>
#include <trajopt_sqp/trust_region_sqp_solver.h>
#include <cstring>
using namespace sqp;

namespace
{
using fakeosqp::ctl;
using fakeosqp::Held;

struct Model
{
  bool init{ false };
  Eigen::Index n{ 0 }, m{ 0 };
  bool h{ false }, q{ false }, a{ false }, lo{ false }, up{ false };
  MatrixXd H, A;
  VectorXd g, l, u;
  bool complete() const { return h && q && lo && up && a; }
};
double clip(double v) { return std::max(-1e30, std::min(1e30, v)); }

/// the first way in which what OSQP holds differs from what it should hold
std::string differs(const Held& d, const MatrixXd& H, const VectorXd& g, const MatrixXd& A, const VectorXd& l, const VectorXd& u)
{
  if (d.P.rows() != H.rows() || d.A.rows() != A.rows() || d.A.cols() != A.cols())
    return "sizes";
  const MatrixXd P = 2 * H;
  for (Eigen::Index i = 0; i < P.rows(); ++i)
  {
    for (Eigen::Index j = 0; j < P.cols(); ++j)
      if (d.P(i, j) != P(i, j))
        return "objective matrix (" + std::to_string(i) + "," + std::to_string(j) + "): " + std::to_string(d.P(i, j)) + " not " + std::to_string(P(i, j));
    if (std::abs(d.q(i) - g(i)) > 1.0000001e-7)
      return "objective vector " + std::to_string(i) + ": " + std::to_string(d.q(i)) + " not " + std::to_string(g(i));
    if (std::abs(g(i)) > 1.0000001e-7 && d.q(i) != g(i))
      return "objective vector " + std::to_string(i);
  }
  for (Eigen::Index i = 0; i < A.rows(); ++i)
  {
    for (Eigen::Index j = 0; j < A.cols(); ++j)
      if (d.A(i, j) != A(i, j))
        return "constraint matrix (" + std::to_string(i) + "," + std::to_string(j) + ")";
    // at and beyond OSQP's infinity all values mean the same
    if (d.l(i) != clip(l(i)) || d.u(i) != clip(u(i)))
      return "limits of row " + std::to_string(i) + ": [" + std::to_string(d.l(i)) + "," + std::to_string(d.u(i)) + "] not [" + std::to_string(l(i)) + "," + std::to_string(u(i)) + "]";
  }
  return "";
}
bool good(int status) { return status == OSQP_SOLVED || status == OSQP_SOLVED_INACCURATE; }
Jacobian sparse(const MatrixXd& m)
{
  Jacobian j = m.sparseView(0.0, 0.0);
  return j;
}
struct Fresh  // nothing injected, nothing observed from earlier cases
{
  Fresh() { ctl() = fakeosqp::Control(); }
  ~Fresh() { ctl() = fakeosqp::Control(); }
};

/// any order of calls
FAMILY(histories, 2500, 30000)
{
  mon::Rng& r = c.rng;
  Fresh fr;
  Silent quiet;
  Model M;
  {
    OSQPEigenSolver s;
    s.verbosity = r.chance(0.3) ? 1 : 0;
    const bool warm = r.chance(0.7);
    s.solver_->settings()->setWarmStart(warm);
    const int iters = r.range(1, 5000);
    const double tol = r.unif(1e-9, 1e-2);
    s.solver_->settings()->setMaxIteration(iters);
    s.solver_->settings()->setAbsoluteTolerance(tol);
    bool live = false;     // OSQP has been set up
    bool solved_before = false;
    std::string seen;
    Held held;
    ctl().on_solve = [&](OSQPSolver* o) {
      held = fakeosqp::held(o);
      seen = differs(held, M.H, M.g, M.A, M.l, M.u);
    };
    auto psd = [&](Eigen::Index n) {
      MatrixXd B = MatrixXd::Zero(n, n);
      const int k = r.range(0, 3);
      for (int t = 0; t < k; ++t)
      {
        VectorXd v(n);
        for (Eigen::Index i = 0; i < n; ++i)
          v(i) = r.chance(0.4) ? 0.0 : r.range(-3, 3);
        B += v * v.transpose();
      }
      if (r.chance(0.6))
        B.diagonal().array() += 1;
      return B;
    };
    auto giveH = [&] {
      M.H = psd(M.n);
      M.h = true;
      EXPECT(s.updateHessianMatrix(sparse(M.H)), "update-refused", "a Hessian that fits was refused");
    };
    auto giveG = [&] {
      M.g = VectorXd(M.n);
      for (Eigen::Index i = 0; i < M.n; ++i)
        M.g(i) = r.chance(0.2) ? r.pick(std::vector<double>{ 0.0, 5e-8, -5e-8, 9e-8, 2e-7, -2e-7 }) : r.unif(-5, 5);
      M.q = true;
      EXPECT(s.updateGradient(M.g), "update-refused", "a gradient that fits was refused");
    };
    auto giveA = [&] {
      M.A = MatrixXd(M.m, M.n);
      const double d = r.unif(0.1, 1);
      for (Eigen::Index i = 0; i < M.m; ++i)
        for (Eigen::Index j = 0; j < M.n; ++j)
          M.A(i, j) = r.chance(d) ? r.unif(-3, 3) : 0.0;
      M.a = true;
      EXPECT(s.updateLinearConstraintsMatrix(sparse(M.A)), "update-refused", "a constraint matrix that fits was refused");
    };
    auto lim = [&](int side, double other) {
      if (r.chance(0.25))
        return side * (r.chance(0.5) ? std::numeric_limits<double>::infinity() : r.pick(std::vector<double>{ 1e30, 1e31, 1e35, 9e29 }));
      if (std::abs(other) > 1e20)
        return r.unif(-4, 4);
      return r.chance(0.2) ? other : other + side * r.unif(0, 3);
    };
    auto giveB = [&](int which) {
      VectorXd l(M.m), u(M.m);
      for (Eigen::Index i = 0; i < M.m; ++i)
      {
        if (which == 0)
        {
          l(i) = lim(-1, r.unif(-4, 4));
          u(i) = lim(1, l(i));
        }
        else if (which < 0)
          l(i) = lim(-1, M.u(i));
        else
          u(i) = lim(1, M.l(i));
      }
      bool ok = false;
      if (which == 0)
      {
        M.l = l;
        M.u = u;
        M.lo = M.up = true;
        ok = s.updateBounds(l, u);
      }
      else if (which < 0)
      {
        M.l = l;
        M.lo = true;
        ok = s.updateLowerBound(l);
      }
      else
      {
        M.u = u;
        M.up = true;
        ok = s.updateUpperBound(u);
      }
      if (which != 0)
        c.event(live ? "one_side_live" : "one_side_before");
      EXPECT(ok, "update-refused", "limits that fit were refused (" << which << (live ? ", while set up)" : ", before the first solve)"));
    };
    EXPECT(s.getSolverStatus() == QPSolverStatus::kUninitialized, "status", "a new solver is initialised");
    int ever = 0;  // problems given so far
    const int steps = r.range(6, 40);
    for (int t = 0; t < steps; ++t)
    {
      int op = r.range(0, 11);
      if (!M.init)
        op = ever == 0 && r.chance(0.2) ? 1 : 0;
      if (!M.init && op == 1)
      {
        EXPECT(!s.solve(), "solve-claims", "success without a problem");
        EXPECT(s.getSolverStatus() == QPSolverStatus::kFailed, "status", "not failed after a solve without a problem");
        c.event("solve_nothing");
        op = 0;
      }
      if (op <= 0 || (op == 1 && r.chance(0.2)))
      {
        if (op == 1 || live || r.chance(0.5))
        {
          EXPECT(s.clear(), "clear", "refused");
          EXPECT(s.getSolverStatus() == QPSolverStatus::kUninitialized, "status", "initialised after clear");
          EXPECT(ctl().live == 0, "leak", ctl().live << " OSQP solvers live after clear");
          live = false;
          solved_before = false;
          M = Model();
          c.event("cleared");
          c.trace << " clear";
          if (op == 1)
            continue;
        }
        M = Model();
        M.n = r.range(1, 6);
        M.m = r.range(1, 7);
        M.init = true;
        ++ever;
        EXPECT(s.init(M.n, M.m), "init", "refused");
        EXPECT(s.getSolverStatus() == QPSolverStatus::kInitialized, "status", "not initialised after init");
        c.trace << " init" << M.n << "x" << M.m;
        std::vector<int> order{ 0, 1, 2, 3 };
        r.shuffle(order);
        for (int o : order)
          o == 0 ? giveH() : o == 1 ? giveG() : o == 2 ? giveA() : giveB(0);
        continue;
      }
      if (op == 2) { giveH(); c.trace << " H"; }
      else if (op == 3) { giveG(); c.trace << " g"; }
      else if (op == 4) { giveA(); c.trace << " A"; }
      else if (op == 5) { giveB(0); c.trace << " b"; }
      else if (op == 6) { giveB(-1); c.trace << " l"; }
      else if (op == 7) { giveB(1); c.trace << " u"; }
      else if (op == 8 && r.chance(0.3))
      {
        c.trace << " misfit";
        c.event("misfit");
        const Eigen::Index d = r.chance(0.5) ? 1 : -1;
        const int what = r.range(0, 4);
        const bool ok = what == 0 ? s.updateGradient(VectorXd::Ones(M.n + d)) :
                        what == 1 ? s.updateHessianMatrix(sparse(MatrixXd::Identity(M.n + d, M.n + d))) :
                        what == 2 ? s.updateBounds(VectorXd::Zero(M.m + d), VectorXd::Ones(M.m + d)) :
                        what == 3 ? s.updateLowerBound(VectorXd::Zero(M.m + d)) : s.updateUpperBound(VectorXd::Zero(M.m + d));
        EXPECT(!ok, "misfit", "data of another size were taken (" << what << ")");
        // what was given before still holds
      }
      else
      {
        const int inj = r.range(0, 14);
        int status = 0, err = 0;
        if (inj == 0)
          status = r.range(OSQP_SOLVED, OSQP_UNSOLVED);
        else if (inj == 1)
          err = 1, ctl().solve_ret.push_back(r.range(1, 6));
        else if (inj == 2 && !live)
          err = 2, ctl().setup_ret.push_back(r.range(1, 6));
        if (status != 0)
          ctl().statuses.push_back(status);
        seen = "not asked";
        const long solves = ctl().solves;
        const bool ok = s.solve();
        c.trace << " solve" << (ok ? "+" : "-");
        if (ctl().solves == solves)
        {
          // OSQP refused the data
          EXPECT(!ok, "solve-claims", "success without a solve");
          EXPECT(err == 2, "refused-data", "a valid problem did not reach OSQP");
          EXPECT(s.getSolverStatus() == QPSolverStatus::kFailed, "status", "not failed after a refused setup");
          ctl().setup_ret.clear();
          c.event("setup_refused");
          ctl().statuses.clear();
          continue;
        }
        live = true;
        EXPECT(seen.empty(), "other-problem", "OSQP holds another problem: " << seen);
        EXPECT(ctl().last_settings.max_iter == iters && ctl().last_settings.eps_abs == tol && (ctl().last_settings.warm_starting == 1) == warm, "settings", "OSQP did not get the settings");
        const auto truth = denseqp::solve(held.P, held.q, held.A, held.l, held.u, 1e19);
        const int st = status != 0 ? status : static_cast<int>(s.solver_->getStatus());
        const bool want = err == 0 && good(st);
        EXPECT(ok == want, "solve-claims", "reported " << ok << " for status " << st << " error " << err);
        EXPECT(s.getSolverStatus() == (want ? QPSolverStatus::kInitialized : QPSolverStatus::kFailed), "status",
               (want ? "failed after a successful solve" : "not failed after a failed solve"));
        c.event(want ? "solved" : "unsolved");
        if (want && solved_before)
          c.event("solved_again");
        if (want && truth.status == denseqp::SOLVED)
        {
          const VectorXd x = s.getSolution();
          EXPECT(x.size() == M.n && (x - truth.x).cwiseAbs().maxCoeff() <= 1e-12 * (1 + truth.x.cwiseAbs().maxCoeff()), "solution", "not OSQP's solution");
        }
        solved_before = true;
      }
      c.event("operation");
      EXPECT(ctl().misuse.empty(), "misuse", ctl().misuse);
    }
    c.note(c.trace.str());
  }
  EXPECT(ctl().live == 0, "leak", ctl().live << " OSQP solvers live at the end");
}

/// a warm start is a point of the problem: the variables' values and the slacks their rows need
FAMILY(warm, 800, 8000)
{
  mon::Rng& r = c.rng;
  Fresh fr;
  const bool ifopt = r.chance(0.3);
  Prob p = randProb(c, ifopt, true, r.chance(0.3));
  p.qp->setup();
  const VectorXd x = r.chance(0.5) ? p.vars.x : randVec(r, p.n, 4);
  p.qp->setVariables(x.data());
  p.qp->convexify();
  OSQPEigenSolver s;
  const bool off = r.chance(0.1);
  if (off)
    s.solver_->settings()->setWarmStart(false);
  int asked = 0;
  ctl().on_solve = [&](OSQPSolver* o) {
    ++asked;
    const Held h = fakeosqp::held(o);
    if (off)
    {
      EXPECT(h.wx.size() == 0, "warm-off", "a warm start was given though it is switched off");
      return;
    }
    const Eigen::Index n = p.qp->getNumNLPVars(), nq = p.qp->getNumQPVars();
    EXPECT(h.wx.size() == nq && h.wy.size() == p.qp->getNumQPConstraints(), "warm-size", h.wx.size());
    EXPECT(h.wx.head(n) == x, "warm-variables", "not the current values");
    EXPECT(h.wy.cwiseAbs().maxCoeff() == 0, "warm-dual", "the multipliers do not start at zero");
    const VectorXd bare = h.A.leftCols(n) * x, act = h.A * h.wx;
    for (Eigen::Index j = n; j < nq; ++j)
      EXPECT(h.wx(j) >= 0, "warm-slack-sign", "slack " << j << " starts at " << h.wx(j));
    for (Eigen::Index i = 0; i < h.A.rows() - nq; ++i)
    {
      bool has = false;
      double slack = 0;
      for (Eigen::Index j = n; j < nq; ++j)
        if (h.A(i, j) != 0)
        {
          has = true;
          slack = std::max(slack, h.wx(j));
        }
      if (!has)
        continue;
      const double tol = 1e-9 * (1 + std::abs(bare(i)));
      EXPECT(act(i) >= h.l(i) - tol && act(i) <= h.u(i) + tol, "warm-slack",
             "row " << i << " is not met by the start: " << act(i) << " (" << bare(i) << " without slack) not in [" << h.l(i) << "," << h.u(i) << "]");
      const bool need = bare(i) < h.l(i) - tol || bare(i) > h.u(i) + tol;
      if (!need)
        EXPECT(slack <= 1e-6, "warm-slack-idle", "row " << i << " needs no slack and starts with " << slack);
      c.event(need ? "slack_needed" : "slack_idle");
    }
  };
  s.init(p.qp->getNumQPVars(), p.qp->getNumQPConstraints());
  bool ok = s.updateHessianMatrix(p.qp->getHessian());
  ok = s.updateGradient(p.qp->getGradient()) && ok;
  ok = s.updateLinearConstraintsMatrix(p.qp->getConstraintMatrix()) && ok;
  ok = s.updateBounds(p.qp->getBoundsLower(), p.qp->getBoundsUpper()) && ok;
  EXPECT(ok, "update-refused", "the problem's matrices were refused");
  EXPECT(s.setWarmStart(*p.qp), "warm-refused", "");
  s.solve();
  EXPECT(asked == 1, "refused-data", "the problem did not reach OSQP");
  EXPECT(ctl().misuse.empty(), "misuse", ctl().misuse);
  c.event(off ? "warm_off" : "warm_start");
  c.trace << (ifopt ? "ifopt " : "trajopt ") << x.transpose();
  c.note(c.trace.str());
}

/// whole runs: at every solve OSQP holds the problem of that moment
FAMILY(runs, 250, 3000)
{
  mon::Rng& r = c.rng;
  Fresh fr;
  Silent quiet;
  const bool ifopt = r.chance(0.3);
  Prob p = randProb(c, ifopt, r.chance(0.6), r.chance(0.3));
  p.qp->setup();
  const VectorXd x = r.chance(0.5) ? p.vars.x : randVec(r, p.n, 4);
  p.qp->setVariables(x.data());
  auto s = std::make_shared<OSQPEigenSolver>();
  s->solver_->settings()->setWarmStart(r.chance(0.7));
  TrustRegionSQPSolver t(s);
  t.params.max_iterations = r.range(1, 20);
  t.params.max_qp_solver_failures = r.range(1, 3);
  t.params.initial_trust_box_size = r.unif(0.05, 1);
  const double fail = r.chance(0.5) ? 0.0 : 0.1;
  long asked = 0, bad = 0, sizes = 0;
  Eigen::Index last = -1;
  ctl().on_solve = [&](OSQPSolver* o) {
    ++asked;
    const Held h = fakeosqp::held(o);
    const std::string d = differs(h, dense(p.qp->getHessian()), p.qp->getGradient(), dense(p.qp->getConstraintMatrix()), p.qp->getBoundsLower(), p.qp->getBoundsUpper());
    EXPECT(d.empty(), "other-problem", "solve " << asked << ": OSQP holds another problem: " << d);
    if (h.P.rows() != last)
      ++sizes;
    last = h.P.rows();
    if (r.chance(fail))
    {
      ++bad;
      if (r.chance(0.5))
        ctl().statuses.push_back(r.range(OSQP_PRIMAL_INFEASIBLE, OSQP_UNSOLVED));
      else
        ctl().solve_ret.push_back(r.range(1, 6));
    }
  };
  t.solve(p.qp);
  c.event("run");
  c.event("run_solves", asked);
  if (bad > 0)
    c.event("run_failures");
  if (sizes > 1)
    c.event("run_resized");
  EXPECT(ctl().misuse.empty(), "misuse", ctl().misuse);
  c.trace << " solves " << asked << " setups " << ctl().setups << " x " << x.transpose();
  c.note(c.trace.str());
}
}  // namespace
MON_MAIN
