// Stand-in for OSQP 1.0: the interface the adapter uses, solved exactly by denseqp; observes and can inject outcomes.
#pragma once
#include <cstdlib>
#include <Eigen/Dense>
#include <deque>
#include <functional>
#include <string>
#include <vector>

typedef long long OSQPInt;
typedef double OSQPFloat;
#define OSQP_NULL 0
#define OSQP_INFTY ((OSQPFloat)1e30)
#define OSQP_NAN ((OSQPFloat)0x7fc00000UL)

enum osqp_status_type
{
  OSQP_SOLVED = 1,
  OSQP_SOLVED_INACCURATE,
  OSQP_PRIMAL_INFEASIBLE,
  OSQP_PRIMAL_INFEASIBLE_INACCURATE,
  OSQP_DUAL_INFEASIBLE,
  OSQP_DUAL_INFEASIBLE_INACCURATE,
  OSQP_MAX_ITER_REACHED,
  OSQP_TIME_LIMIT_REACHED,
  OSQP_NON_CVX,
  OSQP_SIGINT,
  OSQP_UNSOLVED
};
enum osqp_error_type
{
  OSQP_NO_ERROR = 0,
  OSQP_DATA_VALIDATION_ERROR = 1,
  OSQP_SETTINGS_VALIDATION_ERROR,
  OSQP_LINSYS_SOLVER_INIT_ERROR,
  OSQP_NONCVX_ERROR,
  OSQP_MEM_ALLOC_ERROR,
  OSQP_WORKSPACE_NOT_INIT_ERROR,
  OSQP_ALGEBRA_LOAD_ERROR,
  OSQP_FOPEN_ERROR,
  OSQP_CODEGEN_DEFINES_ERROR,
  OSQP_DATA_NOT_INITIALIZED,
  OSQP_FUNC_NOT_IMPLEMENTED,
  OSQP_LAST_ERROR_PLACE
};
typedef struct
{
  OSQPInt m, n;
  OSQPInt* p;
  OSQPInt* i;
  OSQPFloat* x;
  OSQPInt nzmax, nz, owned;
} OSQPCscMatrix;
typedef struct
{
  OSQPInt device, linsys_solver, allocate_solution, verbose, profiler_level, warm_starting, scaling, polishing;
  OSQPFloat rho;
  OSQPInt rho_is_vec;
  OSQPFloat sigma, alpha;
  OSQPInt cg_max_iter, cg_tol_reduction;
  OSQPFloat cg_tol_fraction;
  OSQPInt cg_precond, adaptive_rho, adaptive_rho_interval;
  OSQPFloat adaptive_rho_fraction, adaptive_rho_tolerance;
  OSQPInt max_iter;
  OSQPFloat eps_abs, eps_rel, eps_prim_inf, eps_dual_inf;
  OSQPInt scaled_termination, check_termination, check_dualgap;
  OSQPFloat time_limit, delta;
  OSQPInt polish_refine_iter;
} OSQPSettings;
typedef struct
{
  char status[32];
  OSQPInt status_val, status_polish;
  OSQPFloat obj_val, dual_obj_val, prim_res, dual_res, duality_gap;
  OSQPInt iter, rho_updates;
  OSQPFloat rho_estimate, setup_time, solve_time, update_time, polish_time, run_time, primdual_int, rel_kkt_error;
} OSQPInfo;
typedef struct
{
  OSQPFloat *x, *y, *prim_inf_cert, *dual_inf_cert;
} OSQPSolution;
struct OSQPWorkspace_;
typedef struct OSQPWorkspace_ OSQPWorkspace;
typedef struct
{
  OSQPSettings* settings;
  OSQPSolution* solution;
  OSQPInfo* info;
  OSQPWorkspace* work;
} OSQPSolver;

extern "C" {
OSQPCscMatrix* OSQPCscMatrix_new(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPFloat* x, OSQPInt* i, OSQPInt* p);
void osqp_set_default_settings(OSQPSettings* settings);
OSQPInt osqp_setup(OSQPSolver** solverp, const OSQPCscMatrix* P, const OSQPFloat* q, const OSQPCscMatrix* A, const OSQPFloat* l,
                   const OSQPFloat* u, OSQPInt m, OSQPInt n, const OSQPSettings* settings);
OSQPInt osqp_solve(OSQPSolver* solver);
OSQPInt osqp_cleanup(OSQPSolver* solver);
OSQPInt osqp_warm_start(OSQPSolver* solver, const OSQPFloat* x, const OSQPFloat* y);
OSQPInt osqp_update_data_vec(OSQPSolver* solver, const OSQPFloat* q_new, const OSQPFloat* l_new, const OSQPFloat* u_new);
OSQPInt osqp_update_data_mat(OSQPSolver* solver, const OSQPFloat* Px_new, const OSQPInt* Px_new_idx, OSQPInt P_new_n,
                             const OSQPFloat* Ax_new, const OSQPInt* Ax_new_idx, OSQPInt A_new_n);
}

// what the monitors see and steer
namespace fakeosqp
{
struct Control
{
  long setups = 0, solves = 0, updates_vec = 0, updates_mat = 0, warm_starts = 0, live = 0, gave_up = 0;
  std::string misuse;                 // first misuse of the interface
  std::deque<int> statuses;           // statuses to report for the next solves (0: the true one)
  std::deque<int> solve_ret, setup_ret, vec_ret, mat_ret;  // return codes to inject (0: the true one)
  OSQPSettings last_settings{};
  std::function<void(OSQPSolver*)> on_solve;  // called before a solve
};
Control& ctl();
/// the problem a solver holds
struct Held
{
  Eigen::MatrixXd P, A;  // P complete
  Eigen::VectorXd q, l, u, wx, wy;  // wx, wy: the last warm start, empty when there was none
};
Held held(const OSQPSolver* s);
}  // namespace fakeosqp
