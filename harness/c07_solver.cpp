// C07: a solver is the one that was named, however it was named.
#include "mon.h"
#include <json/json.h>
#include <cstdlib>
#include <trajopt_sco/modeling.hpp>
#include <trajopt_sco/solver_interface.hpp>
#include <trajopt_sco/bpmpd_interface.hpp>
#ifdef FULL
#include <trajopt_sco/osqp_interface.hpp>
#include <trajopt_sco/qpoases_interface.hpp>
#endif
using namespace sco;
namespace
{
// the documented names of the documented solvers
const std::vector<std::pair<std::string, ModelType::Value>> NAMES = { { "GUROBI", ModelType::GUROBI },
                                                                      { "OSQP", ModelType::OSQP },
                                                                      { "QPOASES", ModelType::QPOASES },
                                                                      { "BPMPD", ModelType::BPMPD },
                                                                      { "AUTO_SOLVER", ModelType::AUTO_SOLVER } };
#ifdef FULL
const std::set<ModelType::Value> HAVE = { ModelType::OSQP, ModelType::QPOASES, ModelType::BPMPD };
#else
const std::set<ModelType::Value> HAVE = { ModelType::BPMPD };
#endif
/// what a model really is
int kind(const Model::Ptr& m)
{
#ifdef FULL
  if (std::dynamic_pointer_cast<OSQPModel>(m))
    return ModelType::OSQP;
  if (std::dynamic_pointer_cast<qpOASESModel>(m))
    return ModelType::QPOASES;
#endif
  if (std::dynamic_pointer_cast<BPMPDModel>(m))
    return ModelType::BPMPD;
  return -1;
}
std::string text(const ModelType& t)
{
  std::ostringstream o;
  o << t;
  return o.str();
}
std::string badName(mon::Case& c)
{
  const std::string& base = c.rng.pick(NAMES).first;
  std::string s = base;
  switch (c.rng.range(0, 5))
  {
    case 0:
      s += " ";
      break;
    case 1:
      s = s.substr(0, s.size() - 1);
      break;
    case 2:
      for (auto& ch : s)
        ch = static_cast<char>(std::tolower(ch));
      break;
    case 3:
      s = "";
      break;
    case 4:
      s[static_cast<std::size_t>(c.rng.range(0, static_cast<int>(s.size()) - 1))] = static_cast<char>(c.rng.range('a', 'z'));
      break;
    default:
      s = "X" + s;
  }
  return s;
}
}  // namespace

FAMILY(names, 2000, 20000)
{
  const auto& n = c.rng.pick(NAMES);
  c.trace << n.first;
  c.note(n.first);
  const int how = c.rng.range(0, 4);
  c.note(how);
  ModelType t;
  EXPECT(t == ModelType::AUTO_SOLVER, "default", "a default solver type is not AUTO_SOLVER");
  if (how == 0)
    t = ModelType(n.first);
  else if (how == 1)
    t = ModelType(n.second);
  else if (how == 2)
    t = ModelType(static_cast<int>(n.second));
  else if (how == 3)
    t.fromJson(Json::Value(n.first));
  else
    t = ModelType(text(ModelType(n.second)));
  EXPECT(t == n.second && static_cast<int>(t) == static_cast<int>(n.second), "name-value", n.first << " is taken for solver number " << static_cast<int>(t));
  EXPECT(text(t) == n.first, "value-name", n.first << " is printed as " << text(t));
  for (const auto& o : NAMES)
    EXPECT((t != ModelType(o.second)) == (o.second != n.second) && (t == ModelType(o.second)) == (o.second == n.second), "comparison", n.first << " compared with " << o.first);
  c.event("named");
  // what is no name is refused
  const std::string bad = badName(c);
  EXPECT_THROW_STD(ModelType x(bad), "bad-name", "the name \"" << bad << "\" was accepted");
  ModelType keep(n.second);
  EXPECT_THROW_STD(keep.fromJson(Json::Value(bad)), "bad-name", "the JSON name \"" << bad << "\" was accepted");
  EXPECT(keep == n.second, "bad-name", "a refused name changed the value");
  const int num = c.rng.range(5, 255);
  EXPECT_THROW_STD(text(ModelType(num)), "bad-number", "solver number " << num << " was printed");
  EXPECT_THROW_STD(createModel(ModelType(num)), "bad-number", "a model was created for solver number " << num);
  c.event("refused");
}

FAMILY(creation, 2000, 20000)
{
  // environment, then a request
  std::string env;
  const int e = c.rng.range(0, 7);
  bool env_bad = false;
  if (e <= 4)
    env = NAMES[static_cast<std::size_t>(e)].first;
  else if (e == 5)
  {
    env = badName(c);
    env_bad = true;
  }
  if (e <= 5)
    setenv("TRAJOPT_CONVEX_SOLVER", env.c_str(), 1);
  else
    unsetenv("TRAJOPT_CONVEX_SOLVER");
  const auto& n = c.rng.pick(NAMES);
  c.trace << "env=" << (e <= 5 ? env : "(unset)") << " request=" << n.first;
  c.note(e);
  c.note(n.first);
  // the list of available solvers: exactly those built in, each once, in the order of the enumeration
  const auto av = availableSolvers();
  std::set<int> got;
  for (const auto& a : av)
    got.insert(static_cast<int>(a));
  EXPECT(got.size() == av.size() && std::set<int>(HAVE.begin(), HAVE.end()) == got, "available", "the available solvers are not the ones built in");
  // oracle
  int want = n.second;
  bool refuse = false;
  if (want == ModelType::AUTO_SOLVER)
  {
    if (e <= 5 && env_bad)
      refuse = true;
    else if (e <= 3)
      want = NAMES[static_cast<std::size_t>(e)].second;
    else
      want = static_cast<int>(av.front());
  }
  refuse = refuse || HAVE.count(static_cast<ModelType::Value>(want)) == 0;
  const bool via_problem = c.rng.chance(0.5);
  auto create = [&]() -> Model::Ptr {
    if (!via_problem)
      return createModel(ModelType(n.second));
    auto p = std::make_shared<OptProb>(ModelType(n.second));
    return p->getModel();
  };
  if (refuse)
  {
    EXPECT_THROW_STD(create(), "unavailable", "a model was created although the solver is not there");
    c.event("unavailable");
  }
  else
  {
    const Model::Ptr m = create();
    EXPECT(m != nullptr && kind(m) == want, "wrong-solver", "asked for solver " << want << ", got solver " << (m ? kind(m) : -2));
    c.event("created");
  }
  unsetenv("TRAJOPT_CONVEX_SOLVER");
}
MON_MAIN
