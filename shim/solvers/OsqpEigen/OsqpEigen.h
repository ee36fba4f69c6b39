// Stand-in for osqp-eigen 0.10 on top of the stand-in for OSQP: the interface the adapter uses, with the library's rules
// (vectors are borrowed, not copied; a matrix is set once until cleared; a new pattern means a new setup).
#pragma once
#include <OsqpEigen/Settings.hpp>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <memory>
#include <vector>

typedef struct
{
  OSQPInt n, m;
  OSQPCscMatrix *P, *A;
  OSQPFloat *q, *l, *u;
} OSQPData;

namespace OsqpEigen
{
enum class ErrorExitFlag : int
{
  NoError = 0,
  DataValidationError = OSQP_DATA_VALIDATION_ERROR,
  SettingsValidationError = OSQP_SETTINGS_VALIDATION_ERROR,
  LinsysSolverInitError = OSQP_LINSYS_SOLVER_INIT_ERROR,
  NonCvxError = OSQP_NONCVX_ERROR,
  MemAllocError = OSQP_MEM_ALLOC_ERROR,
  WorkspaceNotInitError = OSQP_WORKSPACE_NOT_INIT_ERROR
};
enum class Status : int
{
  Solved = OSQP_SOLVED,
  SolvedInaccurate = OSQP_SOLVED_INACCURATE,
  PrimalInfeasible = OSQP_PRIMAL_INFEASIBLE,
  PrimalInfeasibleInaccurate = OSQP_PRIMAL_INFEASIBLE_INACCURATE,
  DualInfeasible = OSQP_DUAL_INFEASIBLE,
  DualInfeasibleInaccurate = OSQP_DUAL_INFEASIBLE_INACCURATE,
  MaxIterReached = OSQP_MAX_ITER_REACHED,
  TimeLimitReached = OSQP_TIME_LIMIT_REACHED,
  NonCvx = OSQP_NON_CVX,
  Sigint = OSQP_SIGINT,
  Unsolved = OSQP_UNSOLVED
};

class Data
{
  friend class Solver;
  OSQPData d_{};
  std::vector<OSQPFloat> px_, ax_;
  std::vector<OSQPInt> pi_, pp_, ai_, ap_;
  OSQPCscMatrix pm_{}, am_{};
  bool nset_{ false }, mset_{ false };
  static void store(const Eigen::SparseMatrix<double>& m, std::vector<OSQPFloat>& x, std::vector<OSQPInt>& i, std::vector<OSQPInt>& p, OSQPCscMatrix& o)
  {
    x.clear();
    i.clear();
    p.assign(1, 0);
    for (Eigen::Index k = 0; k < m.outerSize(); ++k)
    {
      for (Eigen::SparseMatrix<double>::InnerIterator it(m, k); it; ++it)
      {
        x.push_back(it.value());
        i.push_back(it.row());
      }
      p.push_back(static_cast<OSQPInt>(x.size()));
    }
    o = OSQPCscMatrix{ m.rows(), m.cols(), p.data(), i.data(), x.data(), static_cast<OSQPInt>(x.size()), -1, 0 };
  }

public:
  void setNumberOfVariables(int n)
  {
    d_.n = n;
    nset_ = true;
  }
  void setNumberOfConstraints(int m)
  {
    d_.m = m;
    mset_ = true;
  }
  template <typename D>
  bool setHessianMatrix(const Eigen::SparseCompressedBase<D>& h)
  {
    if (d_.P != nullptr || !nset_ || h.rows() != d_.n || h.cols() != d_.n)
      return false;
    const Eigen::SparseMatrix<double> all = h.derived(), up = all.template triangularView<Eigen::Upper>();
    store(up, px_, pi_, pp_, pm_);
    d_.P = &pm_;
    return true;
  }
  template <typename D>
  bool setLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D>& a)
  {
    if (d_.A != nullptr || !nset_ || !mset_ || a.rows() != d_.m || a.cols() != d_.n)
      return false;
    const Eigen::SparseMatrix<double> all = a.derived();
    store(all, ax_, ai_, ap_, am_);
    d_.A = &am_;
    return true;
  }
  void clearHessianMatrix() { d_.P = nullptr; }
  void clearLinearConstraintsMatrix() { d_.A = nullptr; }
  bool setGradient(Eigen::Ref<Eigen::VectorXd> g)
  {
    if (!nset_ || g.rows() != d_.n)
      return false;
    d_.q = g.data();
    return true;
  }
  bool setLowerBound(Eigen::Ref<Eigen::VectorXd> v)
  {
    if (!mset_ || v.rows() != d_.m)
      return false;
    d_.l = v.data();
    return true;
  }
  bool setUpperBound(Eigen::Ref<Eigen::VectorXd> v)
  {
    if (!mset_ || v.rows() != d_.m)
      return false;
    d_.u = v.data();
    return true;
  }
  bool setBounds(Eigen::Ref<Eigen::VectorXd> l, Eigen::Ref<Eigen::VectorXd> u)
  {
    bool ok = setLowerBound(l);
    ok = setUpperBound(u) && ok;
    return ok;
  }
  bool isSet() const { return nset_ && mset_ && d_.P != nullptr && d_.q != nullptr && (d_.m == 0 || (d_.A != nullptr && d_.l != nullptr && d_.u != nullptr)); }
  OSQPData* getData() { return &d_; }
};

class Solver
{
  OSQPSolver* s_{ nullptr };
  std::unique_ptr<Settings> settings_{ std::make_unique<Settings>() };
  std::unique_ptr<Data> data_{ std::make_unique<Data>() };
  Eigen::VectorXd solution_;
  /// the pattern and the values of what OSQP holds, put in place; false when the pattern differs
  static bool sameShape(const OSQPCscMatrix& a, const std::vector<OSQPInt>& p, const std::vector<OSQPInt>& i)
  {
    for (OSQPInt k = 0; k <= a.n; ++k)
      if (a.p[k] != p[static_cast<std::size_t>(k)])
        return false;
    for (OSQPInt k = 0; k < a.p[a.n]; ++k)
      if (a.i[k] != i[static_cast<std::size_t>(k)])
        return false;
    return true;
  }
  bool again()
  {
    const auto n = static_cast<Eigen::Index>(data_->d_.n), m = static_cast<Eigen::Index>(data_->d_.m);
    const Eigen::VectorXd x = Eigen::Map<Eigen::VectorXd>(s_->solution->x, n), y = Eigen::Map<Eigen::VectorXd>(s_->solution->y, m);
    clearSolver();
    if (!initSolver())
      return false;
    if (x.allFinite() && y.allFinite())
      return setWarmStart(x, y);
    return true;
  }

public:
  Solver() = default;
  Solver(const Solver&) = delete;
  ~Solver() { clearSolver(); }
  std::unique_ptr<Settings>& settings_ref() { return settings_; }
  const std::unique_ptr<Settings>& settings() const { return settings_; }
  const std::unique_ptr<Data>& data() const { return data_; }
  OSQPSolver* solver() { return s_; }
  bool isInitialized() const { return s_ != nullptr; }
  bool initSolver()
  {
    if (s_ != nullptr || !data_->isSet())
      return false;
    const OSQPData& d = data_->d_;
    if (osqp_setup(&s_, d.P, d.q, d.A, d.l, d.u, d.m, d.n, settings_->getSettings()) != 0)
    {
      if (s_ != nullptr)
        osqp_cleanup(s_);
      s_ = nullptr;
      return false;
    }
    return true;
  }
  void clearSolver()
  {
    if (s_ != nullptr)
      osqp_cleanup(s_);
    s_ = nullptr;
  }
  ErrorExitFlag solveProblem() { return s_ == nullptr ? ErrorExitFlag::WorkspaceNotInitError : static_cast<ErrorExitFlag>(osqp_solve(s_)); }
  Status getStatus() const { return static_cast<Status>(s_->info->status_val); }
  const Eigen::VectorXd& getSolution()
  {
    solution_ = Eigen::Map<Eigen::VectorXd>(s_->solution->x, static_cast<Eigen::Index>(data_->d_.n));
    return solution_;
  }
  double getObjValue() const { return s_->info->obj_val; }
  bool updateGradient(const Eigen::Ref<const Eigen::VectorXd>& g) { return s_ != nullptr && g.rows() == data_->d_.n && osqp_update_data_vec(s_, g.data(), nullptr, nullptr) == 0; }
  bool updateLowerBound(const Eigen::Ref<const Eigen::VectorXd>& l) { return s_ != nullptr && l.rows() == data_->d_.m && osqp_update_data_vec(s_, nullptr, l.data(), nullptr) == 0; }
  bool updateUpperBound(const Eigen::Ref<const Eigen::VectorXd>& u) { return s_ != nullptr && u.rows() == data_->d_.m && osqp_update_data_vec(s_, nullptr, nullptr, u.data()) == 0; }
  bool updateBounds(const Eigen::Ref<const Eigen::VectorXd>& l, const Eigen::Ref<const Eigen::VectorXd>& u)
  {
    return s_ != nullptr && l.rows() == data_->d_.m && u.rows() == data_->d_.m && osqp_update_data_vec(s_, nullptr, l.data(), u.data()) == 0;
  }
  template <typename D>
  bool updateHessianMatrix(const Eigen::SparseCompressedBase<D>& h)
  {
    if (s_ == nullptr || h.rows() != data_->d_.n || h.cols() != data_->d_.n)
      return false;
    const auto p = data_->pp_;
    const auto i = data_->pi_;
    data_->clearHessianMatrix();
    if (!data_->setHessianMatrix(h))
      return false;
    if (sameShape(data_->pm_, p, i))
      return osqp_update_data_mat(s_, data_->pm_.x, nullptr, data_->pm_.nzmax, nullptr, nullptr, 0) == 0;
    return again();
  }
  template <typename D>
  bool updateLinearConstraintsMatrix(const Eigen::SparseCompressedBase<D>& a)
  {
    if (s_ == nullptr || a.rows() != data_->d_.m || a.cols() != data_->d_.n)
      return false;
    const auto p = data_->ap_;
    const auto i = data_->ai_;
    data_->clearLinearConstraintsMatrix();
    if (!data_->setLinearConstraintsMatrix(a))
      return false;
    if (sameShape(data_->am_, p, i))
      return osqp_update_data_mat(s_, nullptr, nullptr, 0, data_->am_.x, nullptr, data_->am_.nzmax) == 0;
    return again();
  }
  bool setWarmStart(const Eigen::Ref<const Eigen::VectorXd>& x, const Eigen::Ref<const Eigen::VectorXd>& y)
  {
    return s_ != nullptr && x.rows() == data_->d_.n && y.rows() == data_->d_.m && osqp_warm_start(s_, x.data(), y.data()) == 0;
  }
};
}  // namespace OsqpEigen
