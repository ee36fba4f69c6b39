#include <osqp.h>
#include "dense_qp.h"
#include <cstring>
struct OSQPWorkspace_
{
  OSQPInt m, n;
  std::vector<OSQPInt> Pp, Pi, Ap, Ai;
  std::vector<double> Px, Ax, q, l, u, wx, wy;
};
namespace
{
using fakeosqp::ctl;
int take(std::deque<int>& d)
{
  if (d.empty())
    return 0;
  int r = d.front();
  d.pop_front();
  return r;
}
void misuse(const std::string& s)
{
  if (ctl().misuse.empty())
    ctl().misuse = s;
}
bool wellFormed(const OSQPCscMatrix* M, const char* what)
{
  if (M->p[0] != 0) { misuse(std::string(what) + ": first column pointer is not 0"); return false; }
  for (OSQPInt j = 0; j < M->n; ++j)
  {
    if (M->p[j + 1] < M->p[j]) { misuse(std::string(what) + ": column pointers decrease"); return false; }
    for (OSQPInt k = M->p[j]; k < M->p[j + 1]; ++k)
    {
      if (M->i[k] < 0 || M->i[k] >= M->m) { misuse(std::string(what) + ": row index out of range"); return false; }
      if (k > M->p[j] && M->i[k] <= M->i[k - 1]) { misuse(std::string(what) + ": rows of a column not increasing"); return false; }
    }
  }
  if (M->p[M->n] > M->nzmax) { misuse(std::string(what) + ": more entries than nzmax"); return false; }
  return true;
}
Eigen::MatrixXd dense(OSQPInt m, OSQPInt n, const std::vector<OSQPInt>& p, const std::vector<OSQPInt>& i, const std::vector<double>& x)
{
  Eigen::MatrixXd D = Eigen::MatrixXd::Zero(m, n);
  for (OSQPInt j = 0; j < n; ++j)
    for (OSQPInt k = p[j]; k < p[j + 1]; ++k)
      D(i[k], j) += x[k];
  return D;
}
bool convex(OSQPWorkspace* w)
{
  Eigen::MatrixXd P = dense(w->n, w->n, w->Pp, w->Pi, w->Px);
  P = Eigen::MatrixXd(P.selfadjointView<Eigen::Upper>());
  if (w->n > 60)
    return true;
  return Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(P).eigenvalues().minCoeff() > -1e-6 * (1 + P.cwiseAbs().maxCoeff());
}
}  // namespace
namespace fakeosqp
{
Control& ctl()
{
  static thread_local Control c;
  return c;
}
Held held(const OSQPSolver* s)
{
  auto vec = [](const std::vector<double>& v) { return Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(v.data(), static_cast<Eigen::Index>(v.size()))); };
  const OSQPWorkspace* w = s->work;
  Held h;
  h.P = dense(w->n, w->n, w->Pp, w->Pi, w->Px);
  h.P = Eigen::MatrixXd(h.P.selfadjointView<Eigen::Upper>());
  h.A = dense(w->m, w->n, w->Ap, w->Ai, w->Ax);
  h.q = vec(w->q);
  h.l = vec(w->l);
  h.u = vec(w->u);
  h.wx = vec(w->wx);
  h.wy = vec(w->wy);
  return h;
}
}  // namespace fakeosqp
extern "C" {
OSQPCscMatrix* OSQPCscMatrix_new(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPFloat* x, OSQPInt* i, OSQPInt* p)
{
  auto* M = static_cast<OSQPCscMatrix*>(malloc(sizeof(OSQPCscMatrix)));
  M->m = m;
  M->n = n;
  M->nzmax = nzmax;
  M->nz = -1;
  M->x = x;
  M->i = i;
  M->p = p;
  M->owned = 0;
  return M;
}
void osqp_set_default_settings(OSQPSettings* s)
{
  std::memset(s, 0, sizeof *s);
  s->linsys_solver = 1;
  s->allocate_solution = 1;
  s->verbose = 1;
  s->warm_starting = 1;
  s->scaling = 10;
  s->rho = 0.1;
  s->rho_is_vec = 1;
  s->sigma = 1e-6;
  s->alpha = 1.6;
  s->adaptive_rho = 1;
  s->adaptive_rho_fraction = 0.4;
  s->adaptive_rho_tolerance = 5;
  s->max_iter = 4000;
  s->eps_abs = s->eps_rel = 1e-3;
  s->eps_prim_inf = s->eps_dual_inf = 1e-4;
  s->check_termination = 25;
  s->check_dualgap = 1;
  s->time_limit = 1e10;
  s->delta = 1e-6;
  s->polish_refine_iter = 3;
}
OSQPInt osqp_setup(OSQPSolver** out, const OSQPCscMatrix* P, const OSQPFloat* q, const OSQPCscMatrix* A, const OSQPFloat* l,
                   const OSQPFloat* u, OSQPInt m, OSQPInt n, const OSQPSettings* settings)
{
  ++ctl().setups;
  ctl().last_settings = *settings;
  if (n <= 0 || m < 0 || P->m != n || P->n != n || A->m != m || A->n != n)
  {
    misuse("setup: dimensions do not agree");
    return OSQP_DATA_VALIDATION_ERROR;
  }
  if (!wellFormed(P, "P") || !wellFormed(A, "A"))
    return OSQP_DATA_VALIDATION_ERROR;
  for (OSQPInt j = 0; j < n; ++j)
    for (OSQPInt k = P->p[j]; k < P->p[j + 1]; ++k)
      if (P->i[k] > j)
      {
        misuse("P: not upper triangular");
        return OSQP_DATA_VALIDATION_ERROR;
      }
  for (OSQPInt i = 0; i < m; ++i)
    if (!(l[i] <= u[i]))
      return OSQP_DATA_VALIDATION_ERROR;
  if (settings->max_iter <= 0 || settings->rho <= 0 || settings->eps_abs < 0)
    return OSQP_SETTINGS_VALIDATION_ERROR;
  const int inj = take(ctl().setup_ret);
  if (inj == OSQP_DATA_VALIDATION_ERROR || inj == OSQP_SETTINGS_VALIDATION_ERROR)
    return inj;  // nothing is allocated then
  auto* w = new OSQPWorkspace_;
  w->m = m;
  w->n = n;
  w->Pp.assign(P->p, P->p + n + 1);
  w->Pi.assign(P->i, P->i + P->p[n]);
  w->Px.assign(P->x, P->x + P->p[n]);
  w->Ap.assign(A->p, A->p + n + 1);
  w->Ai.assign(A->i, A->i + A->p[n]);
  w->Ax.assign(A->x, A->x + A->p[n]);
  w->q.assign(q, q + n);
  w->l.assign(l, l + m);
  w->u.assign(u, u + m);
  auto* s = new OSQPSolver;
  s->work = w;
  s->settings = new OSQPSettings(*settings);
  s->info = new OSQPInfo();
  s->info->status_val = OSQP_UNSOLVED;
  s->solution = new OSQPSolution();
  s->solution->x = new double[static_cast<std::size_t>(n)]();
  s->solution->y = new double[static_cast<std::size_t>(m)]();
  s->solution->prim_inf_cert = new double[static_cast<std::size_t>(m)]();
  s->solution->dual_inf_cert = new double[static_cast<std::size_t>(n)]();
  *out = s;
  ++ctl().live;
  if (inj != 0)
    return inj;
  return convex(w) ? OSQP_NO_ERROR : OSQP_NONCVX_ERROR;
}
OSQPInt osqp_solve(OSQPSolver* s)
{
  ++ctl().solves;
  if (s == nullptr)
    return OSQP_WORKSPACE_NOT_INIT_ERROR;
  if (ctl().on_solve)
    ctl().on_solve(s);
  const int inj = take(ctl().solve_ret);
  if (inj != 0)
    return inj;
  OSQPWorkspace* w = s->work;
  Eigen::MatrixXd P = dense(w->n, w->n, w->Pp, w->Pi, w->Px);
  P = Eigen::MatrixXd(P.selfadjointView<Eigen::Upper>());
  const Eigen::MatrixXd A = dense(w->m, w->n, w->Ap, w->Ai, w->Ax);
  auto vec = [](const std::vector<double>& v) { return Eigen::VectorXd(Eigen::Map<const Eigen::VectorXd>(v.data(), static_cast<Eigen::Index>(v.size()))); };
  const auto r = denseqp::solve(P, vec(w->q), A, vec(w->l), vec(w->u), 1e19);
  s->info->status_val = r.status == denseqp::SOLVED ? OSQP_SOLVED : r.status == denseqp::INFEASIBLE ? OSQP_PRIMAL_INFEASIBLE : OSQP_MAX_ITER_REACHED;
  if (r.status == denseqp::FAILED)
    ++ctl().gave_up;
  const int st = take(ctl().statuses);
  if (st != 0)
    s->info->status_val = st;
  for (OSQPInt i = 0; i < w->n; ++i)
    s->solution->x[i] = r.status == denseqp::SOLVED ? r.x(i) : std::nan("");
  for (OSQPInt i = 0; i < w->m; ++i)
    s->solution->y[i] = r.status == denseqp::SOLVED ? r.y(i) : std::nan("");
  return OSQP_NO_ERROR;
}
OSQPInt osqp_cleanup(OSQPSolver* s)
{
  if (s == nullptr)
    return 0;
  --ctl().live;
  delete[] s->solution->x;
  delete[] s->solution->y;
  delete[] s->solution->prim_inf_cert;
  delete[] s->solution->dual_inf_cert;
  delete s->solution;
  delete s->info;
  delete s->settings;
  delete s->work;
  delete s;
  return 0;
}
OSQPInt osqp_warm_start(OSQPSolver* s, const OSQPFloat* x, const OSQPFloat* y)
{
  ++ctl().warm_starts;
  double sum = 0;
  for (OSQPInt i = 0; i < s->work->n; ++i)
    sum += x[i];
  for (OSQPInt i = 0; i < s->work->m; ++i)
    sum += y[i];
  if (!(std::fabs(sum) < 1e300))
    misuse("warm start from a point that is not finite");
  s->work->wx.assign(x, x + s->work->n);
  s->work->wy.assign(y, y + s->work->m);
  return 0;
}
OSQPInt osqp_update_data_vec(OSQPSolver* s, const OSQPFloat* q, const OSQPFloat* l, const OSQPFloat* u)
{
  ++ctl().updates_vec;
  const int inj = take(ctl().vec_ret);
  if (inj != 0)
    return inj;
  OSQPWorkspace* w = s->work;
  for (OSQPInt i = 0; i < w->m; ++i)
    if ((l ? l[i] : w->l[i]) > (u ? u[i] : w->u[i]))
      return OSQP_DATA_VALIDATION_ERROR;
  if (q) w->q.assign(q, q + w->n);
  if (l) w->l.assign(l, l + w->m);
  if (u) w->u.assign(u, u + w->m);
  return 0;
}
OSQPInt osqp_update_data_mat(OSQPSolver* s, const OSQPFloat* Px, const OSQPInt* Pi, OSQPInt nP, const OSQPFloat* Ax, const OSQPInt* Ai, OSQPInt nA)
{
  ++ctl().updates_mat;
  const int inj = take(ctl().mat_ret);
  if (inj != 0)
    return inj;
  OSQPWorkspace* w = s->work;
  auto upd = [](std::vector<double>& x, const OSQPFloat* nx, const OSQPInt* idx, OSQPInt n) {
    if (nx == nullptr)
      return true;
    if (n > static_cast<OSQPInt>(x.size()))
      return false;
    if (idx == nullptr)
      x.assign(nx, nx + x.size());  // every value; the positions stay those of the setup
    else
      for (OSQPInt k = 0; k < n; ++k)
        x[static_cast<std::size_t>(idx[k])] = nx[k];
    return true;
  };
  if (!upd(w->Px, Px, Pi, nP)) return 1;
  if (!upd(w->Ax, Ax, Ai, nA)) return 2;
  return convex(w) ? 0 : OSQP_NONCVX_ERROR;
}
}
