// Stand-in for qpOASES 3.2: the interface the adapter uses, solved exactly by denseqp; observes and can inject outcomes.
#pragma once
#include <deque>
#include <string>
#include <vector>
#include <cmath>
#include <memory>
namespace qpOASES
{
typedef int int_t;
typedef double real_t;
typedef int sparse_int_t;
const real_t INFTY = 1.0e20;
enum BooleanType { BT_FALSE = 0, BT_TRUE = 1 };
enum PrintLevel { PL_DEBUG_ITER = -2, PL_TABULAR, PL_NONE = 0, PL_LOW, PL_MEDIUM, PL_HIGH };
enum returnValue
{
  TERMINAL_LIST_ELEMENT = -1,
  SUCCESSFUL_RETURN = 0,
  RET_INVALID_ARGUMENTS = 5,
  RET_INIT_FAILED = 33,
  RET_INIT_FAILED_INFEASIBILITY = 37,
  RET_INIT_FAILED_UNBOUNDEDNESS = 38,
  RET_HOTSTART_FAILED = 49,
  RET_HOTSTART_STOPPED_INFEASIBILITY = 61,
  RET_HOTSTART_STOPPED_UNBOUNDEDNESS = 62,
  RET_QP_SOLUTION_STARTED = 63,
  RET_MAX_NWSR_REACHED = 64,
  RET_QP_NOT_SOLVED = 66
};
struct Options
{
  PrintLevel printLevel = PL_MEDIUM;
  BooleanType enableRegularisation = BT_FALSE;
  returnValue setToMPC() { return SUCCESSFUL_RETURN; }
  returnValue setToDefault() { return SUCCESSFUL_RETURN; }
  returnValue ensureConsistency() { return SUCCESSFUL_RETURN; }
};
class SparseMatrix
{
public:
  SparseMatrix() = default;
  SparseMatrix(int_t nr, int_t nc, sparse_int_t* r, sparse_int_t* c, real_t* v) : nRows(nr), nCols(nc), ir(r), jc(c), val(v) {}
  virtual ~SparseMatrix() = default;
  sparse_int_t* createDiagInfo();
  int_t nRows = 0, nCols = 0;
  sparse_int_t* ir = nullptr;
  sparse_int_t* jc = nullptr;
  real_t* val = nullptr;  // like the real one, the arrays belong to the caller
  std::vector<sparse_int_t> jd;
};
class SymSparseMat : public SparseMatrix
{
public:
  using SparseMatrix::SparseMatrix;
};
typedef SymSparseMat SymmetricMatrix;
typedef SparseMatrix Matrix;
class SQProblem
{
public:
  SQProblem(int_t nV, int_t nC);
  virtual ~SQProblem() = default;
  returnValue setOptions(const Options&) { return SUCCESSFUL_RETURN; }
  int_t getNV() const { return nv; }
  int_t getNC() const { return nc; }
  BooleanType isInitialised() const { return initialised ? BT_TRUE : BT_FALSE; }
  BooleanType isSolved() const { return solved ? BT_TRUE : BT_FALSE; }
  returnValue init(SymmetricMatrix* H, const real_t* g, Matrix* A, const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA,
                   int_t& nWSR, real_t* cputime = nullptr);
  returnValue hotstart(SymmetricMatrix* H, const real_t* g, Matrix* A, const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA,
                       int_t& nWSR, real_t* cputime = nullptr);
  returnValue getPrimalSolution(real_t* const x) const;

private:
  returnValue run(SymmetricMatrix* H, const real_t* g, Matrix* A, const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA,
                  int_t& nWSR, bool hot);
  int_t nv, nc;
  bool initialised = false, solved = false;
  std::vector<double> x;
};
}  // namespace qpOASES
namespace fakeqpoases
{
struct Control
{
  long inits = 0, hotstarts = 0, created = 0, gave_up = 0;
  std::string misuse;
  std::deque<int> hot_ret, init_ret;  // injected outcomes (0: the true one)
};
Control& ctl();
}  // namespace fakeqpoases
