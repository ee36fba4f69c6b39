// C14: the trust region solver of trajopt_sqp does what its parameters say, and what it reports is true.
#include "sqp_util.h"
#include "dense_qp.h"
#include <trajopt_sqp/trust_region_sqp_solver.h>
#include <trajopt_sqp/sqp_callback.h>
#include <trajopt_sqp/qp_solver.h>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
using namespace sqp;

namespace
{
double u01(std::uint64_t h) { return static_cast<double>(h >> 11) * 0x1p-53; }
std::uint64_t mix(std::uint64_t a, std::uint64_t b)
{
  std::uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
/// everything printed to stdout goes nowhere, also by printf
struct Mute
{
  int saved;
  Mute()
  {
    std::fflush(stdout);
    saved = dup(1);
    const int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
  }
  ~Mute()
  {
    std::fflush(stdout);
    dup2(saved, 1);
    close(saved);
  }
};

/// what the problem's merit landscape looks like; values are multiples of 1/64 so that sums are exact
struct Landscape
{
  std::uint64_t seed{ 0 };
  Eigen::Index n{ 1 }, m{ 0 }, k{ 0 };
  double feasible{ 0.4 }, better{ 0.5 }, faithful{ 0.4 };
  std::uint64_t key(const VectorXd& x) const
  {
    std::uint64_t h = seed;
    for (Eigen::Index i = 0; i < n; ++i)
    {
      std::uint64_t b;
      const double v = x(i) + 0.0;
      std::memcpy(&b, &v, 8);
      h = mix(h, b);
    }
    return h;
  }
  static double q(double v) { return std::round(v * 64) / 64; }
  /// the level falls with the first variable, so that there is something to find
  VectorXd costs(const VectorXd& x) const
  {
    VectorXd o(k);
    for (Eigen::Index i = 0; i < k; ++i)
      o(i) = q(8 + 40 * u01(mix(key(x), static_cast<std::uint64_t>(i) + 1)) - 3 * x(0));
    return o;
  }
  VectorXd viols(const VectorXd& x) const
  {
    VectorXd o(m);
    const bool all = u01(mix(key(x), 999)) < feasible;
    for (Eigen::Index i = 0; i < m; ++i)
    {
      const double t = u01(mix(key(x), 1000 + static_cast<std::uint64_t>(i)));
      o(i) = all || t < 0.3 ? 0.0 : q(4 * t);
    }
    return o;
  }
  VectorXd bend(const VectorXd& v, const VectorXd& x, int round, std::uint64_t salt) const
  {
    VectorXd o = v;
    const double t = u01(mix(key(x), salt + static_cast<std::uint64_t>(round) * 7919));
    if (t < faithful)
      return o;
    for (Eigen::Index i = 0; i < o.size(); ++i)
    {
      const double s = u01(mix(key(x), salt * 31 + static_cast<std::uint64_t>(round) * 104729 + static_cast<std::uint64_t>(i)));
      o(i) = t < faithful + better ? q(std::max(0.0, v(i) - 10 * s)) : q(v(i) + 10 * (s - 0.5));
    }
    return o;
  }
  VectorXd ccosts(const VectorXd& x, int round) const { return bend(costs(x), x, round, 5000); }
  VectorXd cviols(const VectorXd& x, int round) const { return bend(viols(x), x, round, 6000).cwiseMax(0.0); }
};

struct Scripted : QPProblem
{
  Landscape L;
  VectorXd cur, box, mu, made_at;
  int round{ 0 };
  bool varying{ false };
  Eigen::Index nq{ 0 }, mq{ 0 };
  Jacobian H, A;
  VectorXd g, lo, hi;
  std::vector<std::string> cn, kn;
  int set_calls{ 0 };
  double filler(std::uint64_t a, std::uint64_t b) const { return u01(mix(mix(L.seed, a), mix(static_cast<std::uint64_t>(round), b))) - 0.5; }
  void limits()
  {
    lo = VectorXd(mq);
    hi = VectorXd(mq);
    for (Eigen::Index i = 0; i < mq; ++i)
    {
      lo(i) = filler(1, static_cast<std::uint64_t>(i)) - 1;
      hi(i) = lo(i) + 2;
    }
    for (Eigen::Index i = 0; i < L.n; ++i)
    {
      lo(mq - nq + i) = cur(i) - box(i);
      hi(mq - nq + i) = cur(i) + box(i);
    }
  }
  void fill()
  {
    nq = L.n + (varying ? static_cast<Eigen::Index>(4 * (filler(2, 0) + 0.5)) : 1);
    mq = nq + (varying ? static_cast<Eigen::Index>(3 * (filler(2, 1) + 0.5)) : 1);
    MatrixXd h(nq, nq), a(mq, nq);
    g = VectorXd(nq);
    for (Eigen::Index i = 0; i < nq; ++i)
    {
      g(i) = filler(3, static_cast<std::uint64_t>(i)) + (mu.size() > 0 ? mu(i % mu.size()) : 0.0);
      for (Eigen::Index j = 0; j < nq; ++j)
        h(i, j) = filler(4, static_cast<std::uint64_t>(i * 100 + j)) > 0.2 ? filler(5, static_cast<std::uint64_t>(i * 100 + j)) : 0.0;
    }
    for (Eigen::Index i = 0; i < mq; ++i)
      for (Eigen::Index j = 0; j < nq; ++j)
        a(i, j) = filler(6, static_cast<std::uint64_t>(i * 100 + j)) > 0.2 ? filler(7, static_cast<std::uint64_t>(i * 100 + j)) : 0.0;
    H = h.sparseView(0, 0);
    A = a.sparseView(0, 0);
    limits();
  }
  explicit Scripted(const Landscape& l, VectorXd x) : L(l), cur(std::move(x))
  {
    box = VectorXd::Constant(L.n, 0.1);
    mu = VectorXd::Constant(L.m, 10);
    for (Eigen::Index i = 0; i < L.m; ++i)
      cn.push_back("c" + std::to_string(i));
    for (Eigen::Index i = 0; i < L.k; ++i)
      kn.push_back("k" + std::to_string(i));
    fill();
  }
  void addConstraintSet(std::shared_ptr<ConstraintSet>) override {}
  void addCostSet(std::shared_ptr<ConstraintSet>, CostPenaltyType) override {}
  void setup() override {}
  void setVariables(const double* x) override { cur = Eigen::Map<const VectorXd>(x, L.n); }
  VectorXd getVariableValues() const override { return cur; }
  void convexify() override
  {
    ++round;
    made_at = cur;
    fill();
  }
  double evaluateTotalConvexCost(const Eigen::Ref<const VectorXd>& x) const override { return L.ccosts(x, round).sum(); }
  VectorXd evaluateConvexCosts(const Eigen::Ref<const VectorXd>& x) const override { return L.ccosts(x, round); }
  double getTotalExactCost() const override { return L.costs(cur).sum(); }
  VectorXd getExactCosts() const override { return L.costs(cur); }
  VectorXd evaluateConvexConstraintViolations(const Eigen::Ref<const VectorXd>& x) const override { return L.cviols(x, round); }
  VectorXd getExactConstraintViolations() const override { return L.viols(cur); }
  void scaleBoxSize(double& s) override
  {
    box *= s;
    limits();
  }
  void setBoxSize(const Eigen::Ref<const VectorXd>& b) override
  {
    box = b;
    limits();
  }
  void setConstraintMeritCoeff(const Eigen::Ref<const VectorXd>& c) override { mu = c; }
  void print() const override {}
  Eigen::Index getNumNLPVars() const override { return L.n; }
  Eigen::Index getNumNLPConstraints() const override { return L.m; }
  Eigen::Index getNumNLPCosts() const override { return L.k; }
  Eigen::Index getNumQPVars() const override { return nq; }
  Eigen::Index getNumQPConstraints() const override { return mq; }
  const std::vector<std::string>& getNLPConstraintNames() const override { return cn; }
  const std::vector<std::string>& getNLPCostNames() const override { return kn; }
  const VectorXd& getBoxSize() const override { return box; }
  const VectorXd& getConstraintMeritCoeff() const override { return mu; }
  const Jacobian& getHessian() const override { return H; }
  const VectorXd& getGradient() const override { return g; }
  const Jacobian& getConstraintMatrix() const override { return A; }
  const VectorXd& getBoundsLower() const override { return lo; }
  const VectorXd& getBoundsUpper() const override { return hi; }
};

/// one thing that happened during a run
struct Ev
{
  enum
  {
    Solve,
    Callback
  } type;
  bool ok{ true };
  VectorXd z;        // solution
  VectorXd x, box, mu;
  SQPResults r;
  int who{ 0 };
};

/// keeps the problem it is given, as a solver with its own workspace does
struct Solver : QPSolver
{
  std::weak_ptr<QPProblem> problem;
  std::vector<Ev>* log{ nullptr };
  mon::Case* c{ nullptr };
  mon::Rng* r{ nullptr };
  double p_fail{ 0 }, p_refuse{ 0 };
  bool real{ false };
  QPSolverStatus st{ QPSolverStatus::kUninitialized };
  Eigen::Index nv{ 0 }, nc{ 0 };
  bool fresh{ true }, in_step{ false };
  MatrixXd H, A;
  VectorXd g, lo, hi, sol;
  std::string wrong;
  int inits{ 0 }, inplace{ 0 }, warm{ 0 };
  bool init(Eigen::Index a, Eigen::Index b) override
  {
    nv = a;
    nc = b;
    st = QPSolverStatus::kInitialized;
    fresh = true;
    H.resize(0, 0);
    A.resize(0, 0);
    g.resize(0);
    lo.resize(0);
    hi.resize(0);
    ++inits;
    return true;
  }
  bool clear() override
  {
    st = QPSolverStatus::kUninitialized;
    nv = nc = 0;
    return true;
  }
  bool refuse(bool fits)
  {
    if (st == QPSolverStatus::kUninitialized)
    {
      if (wrong.empty())
        wrong = "data was given to a solver that is not initialised";
      return true;
    }
    if (!fits)
      return true;
    if (!fresh && r->chance(p_refuse))
    {
      c->event("update_refused");
      return true;
    }
    return false;
  }
  bool updateHessianMatrix(const Jacobian& h) override
  {
    in_step = true;
    if (refuse(h.rows() == nv && h.cols() == nv))
      return false;
    H = dense(h);
    return true;
  }
  bool updateGradient(const Eigen::Ref<const VectorXd>& v) override
  {
    if (refuse(v.size() == nv))
      return false;
    g = v;
    return true;
  }
  bool updateLowerBound(const Eigen::Ref<const VectorXd>& v) override
  {
    if (refuse(v.size() == nc))
      return false;
    lo = v;
    return true;
  }
  bool updateUpperBound(const Eigen::Ref<const VectorXd>& v) override
  {
    if (refuse(v.size() == nc))
      return false;
    hi = v;
    return true;
  }
  bool updateBounds(const Eigen::Ref<const VectorXd>& l, const Eigen::Ref<const VectorXd>& u) override
  {
    const bool step = in_step;
    in_step = false;
    const double keep = p_refuse;
    if (!step)
      p_refuse = 0;  // a new box is never refused
    const bool no = refuse(l.size() == nc && u.size() == nc);
    p_refuse = keep;
    if (no)
      return false;
    if (step && !fresh)
      ++inplace;
    lo = l;
    hi = u;
    return true;
  }
  bool updateLinearConstraintsMatrix(const Jacobian& a) override
  {
    if (refuse(a.rows() == nc && a.cols() == nv))
      return false;
    A = dense(a);
    return true;
  }
  bool setWarmStart(const QPProblem&) override
  {
    ++warm;
    return true;
  }
  QPSolverStatus getSolverStatus() const override { return st; }
  bool solve() override
  {
    fresh = false;
    const auto p = problem.lock();
    if (wrong.empty())
    {
      const MatrixXd h = dense(p->getHessian()), a = dense(p->getConstraintMatrix());
      if (H.rows() != h.rows() || H != h)
        wrong = "solved with another Hessian than the problem's";
      else if (g.size() != p->getGradient().size() || g != p->getGradient())
        wrong = "solved with another gradient than the problem's";
      else if (A.rows() != a.rows() || A.cols() != a.cols() || A != a)
        wrong = "solved with another constraint matrix than the problem's";
      else if (lo.size() != p->getBoundsLower().size() || lo != p->getBoundsLower() || hi != p->getBoundsUpper())
        wrong = "solved with other limits than the problem's";
    }
    Ev e;
    e.type = Ev::Solve;
    e.x = p->getVariableValues();
    e.box = p->getBoxSize();
    e.mu = p->getConstraintMeritCoeff();
    e.ok = !r->chance(p_fail);
    if (e.ok && real)
    {
      const double k = std::max(1.0, g.size() > 0 ? g.cwiseAbs().maxCoeff() / 10 : 1.0);
      const auto s = denseqp::solve(2 * H / k, g / k, A, lo, hi, 1e19);
      e.ok = s.status == denseqp::SOLVED || (s.status == denseqp::FAILED && s.residual < 1e-5);
      sol = s.x;
    }
    else if (e.ok)
    {
      sol = VectorXd::Zero(p->getNumQPVars());
      const Eigen::Index n = p->getNumNLPVars();
      for (Eigen::Index i = 0; i < sol.size(); ++i)
        sol(i) = i < n ? e.x(i) + e.box(i) * r->unif(-1, 1) : r->unif(0, 2);
      if (r->chance(0.1))
        sol.head(n) = e.x;  // nothing to improve
    }
    st = e.ok ? QPSolverStatus::kInitialized : QPSolverStatus::kFailed;
    e.z = e.ok ? sol : VectorXd();
    if (log->size() < 20000)
      log->push_back(e);
    else
      throw std::runtime_error("the run does not end");
    c->event(e.ok ? "qp_solved" : "qp_failed");
    return e.ok;
  }
  VectorXd getSolution() override { return sol; }
};

struct Call : SQPCallback
{
  std::vector<Ev>* log;
  int who, stop_at;  // the number of the call that returns false
  int calls{ 0 };
  Call(std::vector<Ev>* l, int w, int s) : log(l), who(w), stop_at(s) {}
  bool execute(const QPProblem& p, const SQPResults& r) override
  {
    Ev e;
    e.type = Ev::Callback;
    e.who = who;
    e.r = r;
    e.x = p.getVariableValues();
    e.box = p.getBoxSize();
    e.mu = p.getConstraintMeritCoeff();
    e.ok = ++calls != stop_at;
    log->push_back(e);
    return e.ok;
  }
};

/// the documented algorithm, following the events of a run
struct Ref
{
  mon::Case& c;
  const Landscape& L;
  const SQPParameters& P;
  const std::vector<Ev>& log;
  int ncb;
  std::size_t at{ 0 };
  // state
  VectorXd best, costs, viols, mu, newx;
  VectorXd acosts, aviols;  // of the convex model that proposed the best point
  double amerit{ 0 };
  bool accepted{ false }, amerit_known{ false };
  double box{ 0 }, merit{ 0 };
  int pen{ 0 }, cvx{ 0 }, tr{ 0 }, all{ 0 }, round;
  SQPStatus st{ SQPStatus::kQPSolveFailed };
  bool bestset{ false };
  bool undecided{ false };  // a decision hangs on rounding
  Ref(mon::Case& c_, const Landscape& l, const SQPParameters& p, const std::vector<Ev>& lg, int n, int rnd) : c(c_), L(l), P(p), log(lg), ncb(n), round(rnd) {}
  void remerit() { merit = costs.sum() + viols.dot(mu); }
  void init(const VectorXd& x)
  {
    best = x;
    costs = L.costs(x);
    viols = L.viols(x);
    mu = VectorXd::Constant(L.m, P.initial_merit_error_coeff);
    box = P.initial_trust_box_size;
    pen = cvx = tr = all = 0;
    accepted = false;
    remerit();
  }
  const Ev& next(int type, const char* what)
  {
    EXPECT(at < log.size(), "trace-short", "the run ended where the documented algorithm goes on with " << what);
    const Ev& e = log[at++];
    EXPECT(e.type == type, "trace-kind", "a " << (e.type == Ev::Solve ? "QP was solved" : "callback was called") << " where the documented algorithm goes on with " << what);
    return e;
  }
  bool same(const VectorXd& a, const VectorXd& b) const { return a.size() == b.size() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= 1e-9 * (1 + b.cwiseAbs().maxCoeff())); }
  void checkBox(const VectorXd& b, const char* where)
  {
    EXPECT(b.size() == L.n && (b.array() - box).abs().maxCoeff() <= 1e-9 * box, "box", "the box is " << b.transpose() << " " << where << ", expected " << box);
  }
  void checkResults(const SQPResults& r, const char* where)
  {
    EXPECT(r.best_var_vals.size() >= L.n && r.best_var_vals.head(L.n) == best, "best-point", "best_var_vals " << r.best_var_vals.transpose() << " " << where << ", expected " << best.transpose());
    EXPECT(same(r.best_costs, costs), "best-costs", "best_costs " << r.best_costs.transpose() << " " << where << ", expected " << costs.transpose());
    EXPECT(same(r.best_constraint_violations, viols), "best-violations", "best_constraint_violations " << r.best_constraint_violations.transpose() << " " << where << ", expected " << viols.transpose());
    if (accepted)
    {
      EXPECT(same(r.best_approx_costs, acosts) && same(r.best_approx_constraint_violations, aviols), "best-approx",
             "best_approx_costs " << r.best_approx_costs.transpose() << " and violations " << r.best_approx_constraint_violations.transpose() << " " << where << ", the model that proposed the point had "
                                  << acosts.transpose() << " and " << aviols.transpose());
      EXPECT(!amerit_known || mon::close(r.best_approx_merit, amerit), "best-approx", "best_approx_merit " << r.best_approx_merit << " " << where << ", expected " << amerit);
      c.event("best_model_compared");
    }
    EXPECT(same(r.merit_error_coeffs, mu), "merit-coeffs", "merit_error_coeffs " << r.merit_error_coeffs.transpose() << " " << where << ", expected " << mu.transpose());
    EXPECT(mon::close(r.best_exact_merit, merit), "best-merit", "best_exact_merit " << r.best_exact_merit << " " << where << ", expected " << merit);
    checkBox(r.box_size, where);
    EXPECT(r.overall_iteration == all, "counter", "overall_iteration " << r.overall_iteration << " " << where << ", there were " << all << " QPs");
    EXPECT(r.penalty_iteration == pen && r.convexify_iteration == cvx && r.trust_region_iteration == tr,
           "counter",
           "penalty, convexify and trust region iterations " << r.penalty_iteration << " " << r.convexify_iteration << " " << r.trust_region_iteration << " " << where << ", expected " << pen << " " << cvx << " " << tr);
  }
  bool less(double a, double b)
  {
    if (std::abs(a - b) <= 1e-11 * (1 + std::abs(a) + std::abs(b)) && a != b)
      undecided = true;
    return a < b;
  }
  void loop()
  {
    tr = 0;
    int failures = 0;
    while (!less(box, P.min_trust_box_size) && !undecided)
    {
      ++all;
      ++tr;
      const Ev& e = next(Ev::Solve, "a QP");
      EXPECT(e.x == best, "solve-at", "the problem is at " << e.x.transpose() << " when the QP is solved, the best point is " << best.transpose());
      checkBox(e.box, "of the QP");
      EXPECT(same(e.mu, mu), "merit-coeffs", "the problem has the coefficients " << e.mu.transpose() << ", expected " << mu.transpose());
      if (!e.ok)
      {
        st = SQPStatus::kQPSolveFailed;
        if (++failures < P.max_qp_solver_failures)
          box *= P.trust_shrink_ratio;
        else if (failures == P.max_qp_solver_failures)
          box = P.min_trust_box_size;
        else
        {
          c.event("failed_too_often");
          return;
        }
        c.event("shrunk_by_failure");
        continue;
      }
      const VectorXd x = e.z.head(L.n);
      const VectorXd nk = L.costs(x), nv = L.viols(x), ak = L.ccosts(x, round), av = L.cviols(x, round);
      const double am = ak.sum() + av.dot(mu), nm = nk.sum() + nv.dot(mu);
      const double ai = merit - am, ei = merit - nm;
      bool stop = false;
      for (int i = 0; i < ncb; ++i)
      {
        const Ev& k = next(Ev::Callback, "a callback");
        EXPECT(k.who == i, "callback-order", "callback " << k.who << " instead of " << i);
        EXPECT(k.x == best, "callback-at", "the problem is at " << k.x.transpose() << " in a callback, the best point is " << best.transpose());
        checkResults(k.r, "in a callback");
        EXPECT(k.r.new_var_vals.size() >= L.n && k.r.new_var_vals.head(L.n) == x, "new-point", "new_var_vals");
        EXPECT(same(k.r.new_costs, nk) && same(k.r.new_constraint_violations, nv), "new-exact", "costs or violations of the new point: " << k.r.new_costs.transpose() << ", " << k.r.new_constraint_violations.transpose() << ", expected " << nk.transpose() << ", " << nv.transpose());
        EXPECT(same(k.r.new_approx_costs, ak) && same(k.r.new_approx_constraint_violations, av), "new-approx", "convex costs or violations of the new point");
        EXPECT(mon::close(k.r.new_exact_merit, nm) && mon::close(k.r.new_approx_merit, am), "new-merit", "merits " << k.r.new_exact_merit << " and " << k.r.new_approx_merit << ", expected " << nm << " and " << am);
        EXPECT(mon::close(k.r.approx_merit_improve, ai, 1e-9, 1e-8) && mon::close(k.r.exact_merit_improve, ei, 1e-9, 1e-8), "improvement", "improvements " << k.r.approx_merit_improve << " and " << k.r.exact_merit_improve << ", expected " << ai << " and " << ei);
        EXPECT(std::abs(ai) < 1e-9 || mon::close(k.r.merit_improve_ratio, ei / ai, 1e-7, 1e-7), "improvement", "ratio " << k.r.merit_improve_ratio << ", expected " << ei / ai);
        stop |= !k.ok;
        c.event("callback");
      }
      st = SQPStatus::kRunning;
      if (stop)
      {
        st = SQPStatus::kStoppedByCallback;
        c.event("stopped");
        return;
      }
      if (less(ai, P.min_approx_improve) || undecided)
      {
        st = SQPStatus::kConverged;
        c.event("no_improvement");
        return;
      }
      if (less(ai / std::max(std::abs(merit), 1e-12), P.min_approx_improve_frac) || undecided)
      {
        st = SQPStatus::kConverged;
        c.event("no_relative_improvement");
        return;
      }
      const double ratio = std::abs(ai) < 1e-12 ? 0.0 : ei / ai;
      if (less(ei, 0) || less(ratio, P.improve_ratio_threshold))
      {
        box *= P.trust_shrink_ratio;
        c.event("rejected_step");
      }
      else
      {
        best = x;
        costs = nk;
        viols = nv;
        merit = nm;
        acosts = ak;
        aviols = av;
        amerit = am;
        accepted = amerit_known = true;
        box *= P.trust_expand_ratio;
        c.event("accepted_step");
        return;
      }
    }
  }
  bool step()
  {
    ++cvx;
    ++round;
    loop();
    if (undecided)
      return true;
    if (st == SQPStatus::kConverged)
      return true;
    if (less(box, P.min_trust_box_size))
    {
      st = SQPStatus::kConverged;
      c.event("tiny_box");
      return true;
    }
    return false;
  }
  bool stopped() const { return st == SQPStatus::kStoppedByCallback || st == SQPStatus::kQPSolveFailed; }
  bool verify() { return viols.size() == 0 || less(viols.maxCoeff(), P.cnt_tolerance); }
  void adjust()
  {
    for (Eigen::Index i = 0; i < mu.size(); ++i)
      if (!P.inflate_constraints_individually || viols(i) > P.cnt_tolerance)
        mu(i) *= P.merit_coeff_increase_ratio;
    box = std::max(box, P.min_trust_box_size / P.trust_shrink_ratio * 1.5);
    amerit_known = false;  // it was made with the former coefficients
    remerit();
    c.event("penalty_increase");
  }
  void run()
  {
    st = SQPStatus::kRunning;
    for (int p = 0; p < P.max_merit_coeff_increases; ++p)
    {
      pen = p;
      cvx = 0;
      while (true)
      {
        if (P.max_time < 0)
        {
          st = SQPStatus::kTimeLimit;
          break;
        }
        if (all >= P.max_iterations)
        {
          st = SQPStatus::kIterationLimit;
          break;
        }
        const bool done = step();
        if (undecided)
          return;
        if (done || stopped())
          break;
      }
      if (stopped())
        return;
      if (verify())
      {
        st = SQPStatus::kConverged;
        return;
      }
      if (st == SQPStatus::kIterationLimit || st == SQPStatus::kTimeLimit)
        return;
      st = SQPStatus::kRunning;
      adjust();
    }
    st = SQPStatus::kPenaltyIterationLimit;
  }
};

SQPParameters randParams(mon::Rng& r)
{
  SQPParameters p;
  p.improve_ratio_threshold = r.pick(std::vector<double>{ 0.25, 0.25, 0.1, 0.5, 0.0 });
  p.min_trust_box_size = r.pick(std::vector<double>{ 1.37e-4, 2.9e-3, 0.0231 });
  p.min_approx_improve = r.pick(std::vector<double>{ 1e-4, 1e-4, 0.3, 2.1, -5.3 });
  if (r.chance(0.3))
    p.min_approx_improve_frac = r.pick(std::vector<double>{ 1e-3, 0.05, 0.3 });
  p.max_iterations = r.pick(std::vector<int>{ 0, 1, 5, 20, 60 });
  p.trust_shrink_ratio = r.pick(std::vector<double>{ 0.1, 0.3, 0.5 });
  p.trust_expand_ratio = r.pick(std::vector<double>{ 1.5, 1.1, 2 });
  p.cnt_tolerance = r.pick(std::vector<double>{ 1e-4, 1e-4, 0.51, 1.3 });
  p.max_merit_coeff_increases = r.pick(std::vector<int>{ 5, 5, 1, 2, 0 });
  p.max_qp_solver_failures = r.pick(std::vector<int>{ 3, 3, 1, 2, 0 });
  p.merit_coeff_increase_ratio = r.pick(std::vector<double>{ 10, 2, 1.25 });
  p.initial_merit_error_coeff = r.pick(std::vector<double>{ 10, 1, 0.5 });
  p.inflate_constraints_individually = r.chance(0.5);
  p.initial_trust_box_size = r.pick(std::vector<double>{ 0.1, 1.0, 0.0057, 1e-6 });
  if (r.chance(0.05))
    p.max_time = -1;
  return p;
}
struct Bench
{
  std::vector<Ev> log;
  std::shared_ptr<Solver> solver{ std::make_shared<Solver>() };
  std::vector<std::shared_ptr<Call>> calls;
};
}  // namespace

// every decision of a run over a random landscape of merits, against the documented algorithm
FAMILY(scripted, 100000, 2000000)
{
  mon::Rng& r = c.rng;
  Bench b;
  b.solver->log = &b.log;
  b.solver->c = &c;
  b.solver->r = &r;
  b.solver->p_fail = r.pick(std::vector<double>{ 0, 0, 0, 0.1, 0.5, 1 });
  b.solver->p_refuse = r.pick(std::vector<double>{ 0, 0.2 });
  TrustRegionSQPSolver s(b.solver);
  const int ncb = r.range(0, 2);
  for (int i = 0; i < ncb; ++i)
  {
    b.calls.push_back(std::make_shared<Call>(&b.log, i, r.chance(0.15) ? r.range(1, 8) : -1));
    s.registerCallback(b.calls.back());
  }
  s.verbose = r.chance(0.02);
  std::unique_ptr<Mute> mute;
  if (s.verbose)
  {
    mute = std::make_unique<Mute>();
    c.event("verbose");
  }
  const int runs = r.chance(0.3) ? 2 : 1;
  for (int run = 0; run < runs; ++run)
  {
    b.log.clear();
    for (auto& k : b.calls)
      k->calls = 0;
    s.params = randParams(r);
    Landscape L;
    L.seed = static_cast<std::uint64_t>(r.range(0, 1 << 30)) + 1;
    L.n = r.range(1, 3);
    L.m = r.range(0, 3);
    L.k = r.range(0, 3);
    L.feasible = r.pick(std::vector<double>{ 0, 0.05, 0.4, 0.8 });
    L.faithful = r.pick(std::vector<double>{ 0.1, 0.4, 0.8 });
    L.better = (1 - L.faithful) * r.pick(std::vector<double>{ 0.5, 0.8, 1.0 });
    auto p = std::make_shared<Scripted>(L, randVec(r, static_cast<int>(L.n), 2));
    p->varying = r.chance(0.3);
    p->fill();
    b.solver->problem = p;
    const VectorXd x0 = p->cur;
    Ref k(c, L, s.params, b.log, ncb, 0);
    c.trace << "\nrun n " << L.n << " m " << L.m << " k " << L.k << " maxit " << s.params.max_iterations << " pen " << s.params.max_merit_coeff_increases << " fails " << s.params.max_qp_solver_failures << " pfail " << b.solver->p_fail << " callbacks " << ncb;
    c.note(static_cast<int>(L.seed));
    c.note(s.params.max_iterations);
    s.solve(p);
    EXPECT(b.solver->wrong.empty(), "qp-data", b.solver->wrong);
    k.init(x0);
    k.run();
    if (k.undecided)
    {
      c.event("undecided");
      return;
    }
    EXPECT(k.at == b.log.size(), "trace-long", "the run goes on (" << b.log.size() - k.at << " events) where the documented algorithm ended with " << toString(k.st));
    EXPECT(s.getStatus() == k.st, "status", "the run ended with " << toString(s.getStatus()) << ", the documented outcome is " << toString(k.st));
    k.checkResults(s.getResults(), "at the end");
    EXPECT(p->getVariableValues() == k.best, "left-at", "the problem is left at " << p->getVariableValues().transpose() << ", the best point is " << k.best.transpose());
    c.event("run_in_step");
    c.event("status_" + toString(k.st));
    c.note(toString(k.st));
    if (b.solver->inplace > 0)
      c.event("updated_in_place");
    if (b.solver->inits > 1)
      c.event("rebuilt");
    if (r.chance(0.02))
    {
      Silent quiet;
      s.getResults().print();
      EXPECT(quiet.sink.str().size() > 100, "print", "nothing was printed");
    }
  }
}

// the pieces, as online planning uses them
FAMILY(online, 30000, 600000)
{
  mon::Rng& r = c.rng;
  Bench b;
  b.solver->log = &b.log;
  b.solver->c = &c;
  b.solver->r = &r;
  b.solver->p_fail = r.pick(std::vector<double>{ 0, 0, 0.2 });
  b.solver->p_refuse = r.pick(std::vector<double>{ 0, 0.2 });
  TrustRegionSQPSolver s(b.solver);
  const int ncb = r.range(0, 2);
  for (int i = 0; i < ncb; ++i)
  {
    b.calls.push_back(std::make_shared<Call>(&b.log, i, r.chance(0.15) ? r.range(1, 8) : -1));
    s.registerCallback(b.calls.back());
  }
  s.params = randParams(r);
  Landscape L;
  L.seed = static_cast<std::uint64_t>(r.range(0, 1 << 30)) + 1;
  L.n = r.range(1, 3);
  L.m = r.range(0, 3);
  L.k = r.range(0, 3);
  auto p = std::make_shared<Scripted>(L, randVec(r, static_cast<int>(L.n), 2));
  p->varying = r.chance(0.3);
  p->fill();
  b.solver->problem = p;
  c.note(static_cast<int>(L.seed));
  Ref k(c, L, s.params, b.log, ncb, 0);
  EXPECT(s.init(p), "init", "init failed");
  k.init(p->cur);
  k.checkResults(s.getResults(), "after init");
  for (int op = r.range(2, 12); op > 0; --op)
  {
    const int what = r.range(0, 7);
    c.note(what);
    c.trace << " op " << what;
    if (what <= 3)
    {
      const bool got = s.stepSQPSolver();
      const bool want = k.step();
      EXPECT(b.solver->wrong.empty(), "qp-data", b.solver->wrong);
      if (k.undecided)
        return;
      EXPECT(k.at == b.log.size(), "trace-long", "the step goes on where the documented algorithm ended it");
      // a step that was stopped may be reported either way
      EXPECT(got == want || k.stopped(), "step", "stepSQPSolver returned " << got << " with the status " << toString(s.getStatus()));
      EXPECT(s.getStatus() == k.st, "status", "status " << toString(s.getStatus()) << " after a step, expected " << toString(k.st));
      c.event("step");
    }
    else if (what == 4)
    {
      const double size = r.pick(std::vector<double>{ 0.1, 1, 0.03 }) * r.unif(0.5, 1);
      s.setBoxSize(size);
      k.box = size;
    }
    else if (what == 5)
    {
      s.adjustPenalty();
      k.adjust();
    }
    else if (what == 6)
    {
      EXPECT(s.verifySQPSolverConvergence() == k.verify(), "verify", "verifySQPSolverConvergence with violations " << k.viols.transpose());
      c.event("verified");
    }
    else
    {
      // the world changed: a new start
      p->cur = randVec(r, static_cast<int>(L.n), 2);
      EXPECT(s.init(p), "init", "init failed");
      k.init(p->cur);
    }
    k.checkResults(s.getResults(), "between the steps");
    EXPECT(p->getVariableValues() == k.best, "left-at", "the problem is at " << p->getVariableValues().transpose());
  }
}

// whole runs on real problems: what is reported is true of the point that is left
FAMILY(real, 6000, 60000)
{
  mon::Rng& r = c.rng;
  const bool ifopt = r.chance(0.4);
  Prob p = randProb(c, ifopt, !ifopt && r.chance(0.3), r.chance(0.4), 3, 3);
  p.qp->setup();
  Bench b;
  b.solver->log = &b.log;
  b.solver->c = &c;
  b.solver->r = &r;
  b.solver->real = true;
  b.solver->p_fail = r.pick(std::vector<double>{ 0, 0, 0, 0.2 });
  b.solver->problem = p.qp;
  TrustRegionSQPSolver s(b.solver);
  auto call = std::make_shared<Call>(&b.log, 0, r.chance(0.1) ? r.range(1, 5) : -1);
  s.registerCallback(call);
  s.params.max_iterations = r.pick(std::vector<int>{ 3, 20, 60 });
  s.params.initial_trust_box_size = r.pick(std::vector<double>{ 0.1, 1, 0.01 });
  s.params.inflate_constraints_individually = r.chance(0.5);
  s.verbose = r.chance(0.05);
  std::unique_ptr<Mute> mute;
  if (s.verbose)
    mute = std::make_unique<Mute>();
  c.note(p.vars.x(0));
  c.note(static_cast<int>(p.costs.size() * 10 + p.cnts.size()));
  c.trace << (ifopt ? " ifopt" : " trajopt") << " maxit " << s.params.max_iterations;
  const VectorXd start = p.qp->getVariableValues();
  s.solve(p.qp);
  EXPECT(b.solver->wrong.empty(), "qp-data", b.solver->wrong);
  const SQPResults& res = s.getResults();
  const VectorXd x = p.qp->getVariableValues();
  EXPECT(res.best_var_vals.size() >= p.n && (res.best_var_vals.head(p.n) - x).cwiseAbs().maxCoeff() <= 1e-9 * (1 + x.cwiseAbs().maxCoeff()), "left-at", "the problem is left at " << x.transpose() << ", best_var_vals " << res.best_var_vals.transpose());
  // exact costs and violations there
  double total = 0;
  const auto& kn = p.qp->getNLPCostNames();
  EXPECT(res.best_costs.size() == static_cast<Eigen::Index>(p.costs.size()), "sizes", "best_costs");
  for (std::size_t q = 0; q < kn.size(); ++q)
  {
    const Fn& f = p.costs[whose(p.costs, kn[q])];
    const VectorXd y = f->ref(x), w = f->refCoeffs(x);
    const auto bd = f->refBounds(x);
    double e = 0;
    for (Eigen::Index i = 0; i < y.size(); ++i)
      e += w(i) * penalty(f->kind, y(i), bd[static_cast<std::size_t>(i)]);
    EXPECT_NEAR_TOL(res.best_costs(static_cast<Eigen::Index>(q)), e, 1e-7, "best-costs", f->getName());
    total += e;
  }
  double worst = 0;
  for (const auto& f : p.cnts)
  {
    const VectorXd y = f->ref(x);
    const auto bd = f->refBounds(x);
    for (Eigen::Index i = 0; i < y.size(); ++i)
      worst = std::max(worst, std::abs(errRef(y(i), bd[static_cast<std::size_t>(i)])));
  }
  const SQPStatus st = s.getStatus();
  c.note(toString(st));
  c.event("real_" + toString(st));
  if (st == SQPStatus::kConverged)
    EXPECT(worst < s.params.cnt_tolerance * (1 + 1e-6) + 1e-9, "false-success", "converged with a violation of " << worst);
  EXPECT(st != SQPStatus::kRunning, "status", "the run ended without an outcome");
  const int solves = static_cast<int>(std::count_if(b.log.begin(), b.log.end(), [](const Ev& e) { return e.type == Ev::Solve; }));
  EXPECT(res.overall_iteration == solves, "counter", "overall_iteration " << res.overall_iteration << " of " << solves);
  if (solves > 0)
    for (Eigen::Index i = 0; i < p.n; ++i)
    {
      // (a start outside its limits is moved inside by the first QP)
      const double tol = 1e-6 * (1 + std::abs(x(i)));
      const bool moved = x != start;
      EXPECT(!moved || (x(i) >= p.lb(i) - tol && x(i) <= p.ub(i) + tol), "bounds", "variable " << i << " is left at " << x(i) << ", its limits are [" << p.lb(i) << ", " << p.ub(i) << "]");
    }
  // merit never increases while the coefficients stay, and every new point is in the box
  double last = INFINITY;
  VectorXd mu;
  for (std::size_t i = 0; i < b.log.size(); ++i)
  {
    const Ev& e = b.log[i];
    if (e.type == Ev::Solve && e.ok)
    {
      for (Eigen::Index v = 0; v < p.n; ++v)
      {
        const double from = std::min(std::max(e.x(v), p.lb(v)), p.ub(v)), d = std::abs(e.z(v) - from);
        EXPECT(d <= e.box(v) + 1e-6 * (1 + std::abs(from)), "outside-box", "a step of " << d << " in a box of " << e.box(v));
      }
    }
    if (e.type != Ev::Callback)
      continue;
    if (mu.size() == e.r.merit_error_coeffs.size() && mu == e.r.merit_error_coeffs)
      EXPECT(e.r.best_exact_merit <= last + 1e-9 * (1 + std::abs(last)), "merit-increase", "the merit rose from " << last << " to " << e.r.best_exact_merit);
    mu = e.r.merit_error_coeffs;
    last = e.r.best_exact_merit;
  }
  c.event("real_run");
}

// convex problems are solved
FAMILY(convex, 3000, 30000)
{
  mon::Rng& r = c.rng;
  Prob p = randProb(c, r.chance(0.4), false, true, 3, 2);
  // a strictly convex cost on top, so that the optimum is unique
  const int n = static_cast<int>(p.n);
  Fn reg(FnSet::make(r, "zreg", n, n, Kind::squared, true, false, 0));
  reg->A = MatrixXd::Identity(n, n);
  reg->coeffs = VectorXd::Ones(n);
  p.qp->addCostSet(reg, CostPenaltyType::kSquared);
  // with other coefficients the merit the steps are judged by is not the one the QP minimises
  for (auto& f : p.cnts)
    f->coeffs.setOnes();
  p.qp->setup();
  Bench b;
  b.solver->log = &b.log;
  b.solver->c = &c;
  b.solver->r = &r;
  b.solver->real = true;
  b.solver->problem = p.qp;
  TrustRegionSQPSolver s(b.solver);
  s.params.max_iterations = 500;
  s.params.initial_trust_box_size = 1;
  s.params.min_approx_improve = 1e-9;
  s.params.min_trust_box_size = 1e-6;
  s.params.max_merit_coeff_increases = 6;
  c.note(p.vars.x(0));
  s.solve(p.qp);
  EXPECT(b.solver->wrong.empty(), "qp-data", b.solver->wrong);
  const VectorXd x = p.qp->getVariableValues();
  auto terms = [&](const VectorXd& y, double& viol) {
    double o = 0;
    for (const auto& f : p.costs)
    {
      const VectorXd v = f->ref(y), w = f->refCoeffs(y);
      const auto bd = f->refBounds(y);
      for (Eigen::Index i = 0; i < v.size(); ++i)
        o += w(i) * penalty(f->kind, v(i), bd[static_cast<std::size_t>(i)]);
    }
    const VectorXd v = reg->ref(y);
    for (Eigen::Index i = 0; i < v.size(); ++i)
      o += std::pow(errRef(v(i), reg->bnds[static_cast<std::size_t>(i)]), 2);
    viol = 0;
    for (const auto& f : p.cnts)
    {
      const VectorXd q = f->ref(y);
      const auto bd = f->refBounds(y);
      for (Eigen::Index i = 0; i < q.size(); ++i)
        viol = std::max(viol, std::abs(errRef(q(i), bd[static_cast<std::size_t>(i)])));
    }
    return o;
  };
  double viol = 0;
  const double got = terms(x, viol);
  c.event("convex_" + toString(s.getStatus()));
  if (s.getStatus() != SQPStatus::kConverged)
    return;
  // no feasible point does better: search around and far away
  for (int k = 0; k < 60; ++k)
  {
    VectorXd y = x + randVec(r, n, 1) * std::pow(10.0, r.unif(-4, 0.5));
    for (int i = 0; i < n; ++i)
      y(i) = std::min(std::max(y(i), p.lb(i)), p.ub(i));
    double v = 0;
    const double o = terms(y, v);
    if (v > viol)
      continue;
    EXPECT(o >= got - 1e-4 * (1 + std::abs(got)), "not-optimal", "a converged run of a convex problem left a cost of " << got << ", " << o << " is possible at a distance of " << (y - x).norm());
    c.event("compared");
  }
  c.event("convex_optimum");
}

// parameters are equal exactly when every one of them is
FAMILY(parameters, 5000, 100000)
{
  mon::Rng& r = c.rng;
  SQPParameters a = randParams(r);
  a.max_time = r.unif(1, 100);
  a.min_approx_improve_frac = r.unif(0, 1);
  SQPParameters b = a;
  EXPECT(a == b && !(a != b), "equal", "a copy differs");
  const int what = r.range(0, 16);
  c.note(what);
  c.note(a.max_time);
  switch (what)
  {
    case 0: b.improve_ratio_threshold += 0.01; break;
    case 1: b.min_trust_box_size += 0.01; break;
    case 2: b.min_approx_improve += 0.01; break;
    case 3: b.min_approx_improve_frac += 0.01; break;
    case 4: b.max_iterations += 1; break;
    case 5: b.trust_shrink_ratio += 0.01; break;
    case 6: b.trust_expand_ratio += 0.01; break;
    case 7: b.cnt_tolerance += 0.01; break;
    case 8: b.max_merit_coeff_increases += 1; break;
    case 9: b.max_qp_solver_failures += 1; break;
    case 10: b.merit_coeff_increase_ratio += 0.01; break;
    case 11: b.max_time += 0.01; break;
    case 12: b.initial_merit_error_coeff += 0.01; break;
    case 13: b.inflate_constraints_individually = !b.inflate_constraints_individually; break;
    case 14: b.initial_trust_box_size += 0.01; break;
    case 15: b.log_results = !b.log_results; break;
    default: b.log_dir += "x"; break;
  }
  EXPECT(a != b && !(a == b), "equal", "parameters that differ in number " << what << " are equal");
  c.event("parameters");
}
MON_MAIN
