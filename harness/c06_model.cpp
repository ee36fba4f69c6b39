// C06: the convex solver model (BPMPD back end): bookkeeping over histories and optimality of solutions.
// Oracle: a lock-step list of what the model should hold; each solve is compared with an active-set enumeration.
#include "model_history.h"
namespace
{
sco::Model::Ptr make() { return sco::createModel(sco::ModelType::BPMPD); }
const mh::Tol TOL{};
}  // namespace
FAMILY(one_problem, 1200, 60000) { mh::oneProblem(c, make, TOL); }
FAMILY(infeasible_problem, 300, 10000) { mh::infeasibleProblem(c, make, TOL); }
FAMILY(histories, 700, 40000) { mh::history(c, make, TOL); }
// several models at once share the solver process
FAMILY(two_models, 150, 4000) { mh::twoModels(c, make, TOL); }
FAMILY(large_problem, 16, 200) { mh::largeProblem(c, make, 150, c.thorough() ? 3000 : 1200, 2e-2); }
MON_MAIN
