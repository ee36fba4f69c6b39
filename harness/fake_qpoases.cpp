#include <qpOASES.hpp>
#include "dense_qp.h"
namespace fakeqpoases
{
Control& ctl()
{
  static thread_local Control c;
  return c;
}
}  // namespace fakeqpoases
namespace
{
void misuse(const std::string& s)
{
  if (fakeqpoases::ctl().misuse.empty())
    fakeqpoases::ctl().misuse = s;
}
int take(std::deque<int>& d)
{
  if (d.empty())
    return 0;
  int r = d.front();
  d.pop_front();
  return r;
}
Eigen::MatrixXd dense(const qpOASES::SparseMatrix& M, const char* what)
{
  Eigen::MatrixXd D = Eigen::MatrixXd::Zero(M.nRows, M.nCols);
  for (int j = 0; j < M.nCols; ++j)
    for (int k = M.jc[j]; k < M.jc[j + 1]; ++k)
    {
      if (M.ir[k] < 0 || M.ir[k] >= M.nRows)
      {
        misuse(std::string(what) + ": row index out of range");
        continue;
      }
      if (k > M.jc[j] && M.ir[k] <= M.ir[k - 1])
        misuse(std::string(what) + ": rows of a column not increasing");
      D(M.ir[k], j) += M.val[k];
    }
  return D;
}
}  // namespace
namespace qpOASES
{
sparse_int_t* SparseMatrix::createDiagInfo()
{
  jd.assign(static_cast<std::size_t>(nCols), 0);
  for (int j = 0; j < nCols; ++j)
  {
    int k = jc[j];
    while (k < jc[j + 1] && ir[k] < j)
      ++k;
    jd[static_cast<std::size_t>(j)] = k;
  }
  return jd.data();
}
SQProblem::SQProblem(int_t nV, int_t nC) : nv(nV), nc(nC) { ++fakeqpoases::ctl().created; }
returnValue SQProblem::run(SymmetricMatrix* H, const real_t* g, Matrix* A, const real_t* lb, const real_t* ub, const real_t* lbA,
                           const real_t* ubA, int_t& nWSR, bool hot)
{
  solved = false;
  if (H->nRows != nv || H->nCols != nv || A->nRows != nc || A->nCols != nv)
  {
    misuse("the matrices have other dimensions than the problem");
    return RET_INVALID_ARGUMENTS;
  }
  const Eigen::MatrixXd P = dense(*H, "H");
  if (!P.isApprox(P.transpose(), 1e-12))
    misuse("H: not given as a full symmetric matrix");
  if (static_cast<int>(H->jd.size()) != nv)
    misuse("H: no diagonal information");
  else
    for (int j = 0; j < nv; ++j)
    {
      const int k = H->jd[static_cast<std::size_t>(j)];
      if (k >= H->jc[j + 1] || H->ir[k] != j)
        misuse("H: a diagonal element is missing");
    }
  const Eigen::MatrixXd M = dense(*A, "A");
  Eigen::MatrixXd B(nv + nc, nv);
  B.topRows(nc) = M;
  B.bottomRows(nv).setIdentity();
  Eigen::VectorXd l(nv + nc), u(nv + nc), q(nv);
  for (int i = 0; i < nc; ++i)
  {
    l(i) = lbA[i];
    u(i) = ubA[i];
  }
  for (int i = 0; i < nv; ++i)
  {
    l(nc + i) = lb[i];
    u(nc + i) = ub[i];
    q(i) = g[i];
  }
  const auto r = denseqp::solve(P, q, B, l, u, 1e19);
  int active = 0;
  if (r.status == denseqp::SOLVED)
    for (Eigen::Index i = 0; i < r.y.size(); ++i)
      active += std::fabs(r.y(i)) > 1e-5 ? 1 : 0;
  const int budget = nWSR;
  nWSR = std::min(budget, active);  // out: the working set changes performed
  if (r.status == denseqp::INFEASIBLE)
    return hot ? RET_HOTSTART_STOPPED_INFEASIBILITY : RET_INIT_FAILED_INFEASIBILITY;
  if (r.status != denseqp::SOLVED)
    ++fakeqpoases::ctl().gave_up;
  if (r.status != denseqp::SOLVED)
    return hot ? RET_HOTSTART_FAILED : RET_INIT_FAILED;
  if (active > budget)
    return RET_MAX_NWSR_REACHED;
  x.assign(r.x.data(), r.x.data() + nv);
  solved = initialised = true;
  return SUCCESSFUL_RETURN;
}
returnValue SQProblem::init(SymmetricMatrix* H, const real_t* g, Matrix* A, const real_t* lb, const real_t* ub, const real_t* lbA,
                            const real_t* ubA, int_t& nWSR, real_t*)
{
  ++fakeqpoases::ctl().inits;
  const int inj = take(fakeqpoases::ctl().init_ret);
  if (inj != 0)
    return static_cast<returnValue>(inj);
  return run(H, g, A, lb, ub, lbA, ubA, nWSR, false);
}
returnValue SQProblem::hotstart(SymmetricMatrix* H, const real_t* g, Matrix* A, const real_t* lb, const real_t* ub, const real_t* lbA,
                                const real_t* ubA, int_t& nWSR, real_t*)
{
  ++fakeqpoases::ctl().hotstarts;
  if (!initialised)
    misuse("hotstart of a problem that was not initialised");
  const int inj = take(fakeqpoases::ctl().hot_ret);
  if (inj != 0)
  {
    solved = false;
    nWSR = 0;  // gave up before the first change of the working set
    return static_cast<returnValue>(inj);
  }
  return run(H, g, A, lb, ub, lbA, ubA, nWSR, true);
}
returnValue SQProblem::getPrimalSolution(real_t* const out) const
{
  if (!solved)
    return RET_QP_NOT_SOLVED;
  for (int i = 0; i < nv; ++i)
    out[i] = x[static_cast<std::size_t>(i)];
  return SUCCESSFUL_RETURN;
}
}  // namespace qpOASES
