// C11: variables, composites and the problem of trajopt_ifopt keep their layout, values and history.
#include "ifopt_util.h"
#include <trajopt_ifopt/costs/absolute_cost.h>
#include <trajopt_ifopt/costs/squared_cost.h>
#include <trajopt_ifopt/variable_sets/nodes_observer.h>
#include <trajopt_common/collision_utils.h>
using namespace ifo;

namespace
{
/// what a variable set must show for reference values x
void layout(mon::Case& c, const VarSet& s, const VectorXd& x, const VectorXd* vals = nullptr)
{
  const NodesVariables& nv = *s.nv;
  EXPECT(nv.getRows() == x.size() && nv.getDim() == x.size(), "layout", nv.getRows() << " rows, " << nv.getDim() << " dim, expected " << x.size());
  EXPECT(nv.getValues() == x, "values", "the set has " << nv.getValues().transpose() << "\nexpected " << x.transpose());
  for (const RefVar& v : s.all)
  {
    EXPECT(v.var->getIndex() == v.index, "layout", v.id << " at " << v.var->getIndex() << ", expected " << v.index);
    EXPECT(v.var->size() == static_cast<Eigen::Index>(v.names.size()), "layout", v.id << " has size " << v.var->size());
    EXPECT(v.var->getIdentifier() == v.id && v.var->name() == v.names, "names", "names of " << v.id);
    EXPECT(v.var->value() == x.segment(v.index, v.var->size()), "values", v.id << " has " << v.var->value().transpose());
    const auto node = nv.getNode(v.node);
    EXPECT(node->getVar(v.id) == v.var && node->hasVar(v.id), "layout", v.id << " is not found in its node");
    EXPECT(v.var->getParent() == node.get() && node->getParent() == &nv, "layout", "parents of " << v.id);
    const auto& b = v.var->bounds();
    EXPECT(b.size() == v.names.size(), "bounds", "number of bounds");
    for (std::size_t k = 0; k < b.size(); ++k)
    {
      const Bounds& w = s.bounds[static_cast<std::size_t>(v.index) + k];
      EXPECT(b[k].getLower() == w.getLower() && b[k].getUpper() == w.getUpper() && b[k].getType() == w.getType(), "bounds", v.id << " bound " << k);
    }
  }
  const auto b = nv.getBounds();
  EXPECT(b.size() == s.bounds.size(), "bounds", "number of bounds " << b.size());
  for (std::size_t k = 0; k < b.size(); ++k)
    EXPECT(b[k].getLower() == s.bounds[k].getLower() && b[k].getUpper() == s.bounds[k].getUpper(), "bounds", "bound " << k);
  const auto nodes = nv.getNodes();
  EXPECT(nodes.size() == s.node_names.size(), "layout", "number of nodes");
  Eigen::Index at = 0;
  for (std::size_t i = 0; i < nodes.size(); ++i)
  {
    EXPECT(nodes[i] == nv.getNode(i) && nodes[i]->getName() == s.node_names[i], "layout", "node " << i);
    const VectorXd v = nodes[i]->getValues();
    EXPECT(v.size() == nodes[i]->size() && at + v.size() <= x.size() && v == x.segment(at, v.size()), "values", "values of node " << i);
    EXPECT(nodes[i]->getBounds().size() == static_cast<std::size_t>(v.size()), "bounds", "bounds of node " << i);
    at += v.size();
  }
  EXPECT(at == x.size(), "layout", "the nodes have " << at << " values");
  EXPECT_THROW_STD(nv.getNode(nodes.size()), "refused", "a node past the last");
  c.event("layout");
}
struct Watch : NodesObserver
{
  using NodesObserver::NodesObserver;
  int calls{ 0 };
  void updateNodes() override { ++calls; }
};
}  // namespace

FAMILY(variables, 20000, 100000)
{
  mon::Rng& r = c.rng;
  const int nodes = r.range(0, 8), dof = r.range(0, 6);
  VarSet s = randVars(c, nodes, dof, true);
  c.trace << " nodes " << nodes << " dof " << dof << " n " << s.x.size();
  c.note(nodes);
  c.note(dof);
  c.note(static_cast<int>(s.x.size()));
  layout(c, s, s.x);
  // initial values are clamped, later ones are taken as they are
  VectorXd x = s.x;
  std::set<std::size_t> hashes{ s.nv->getHash() };
  for (int k = r.range(1, 4); k > 0; --k)
  {
    VectorXd y = randVec(r, x.size(), 10);
    const bool same = y == x;
    const std::size_t before = s.nv->getHash();
    s.nv->setVariables(y);
    layout(c, s, y);
    if (x.size() > 0 && r.chance(0.3))
    {
      const std::size_t h = s.nv->getHash();
      s.nv->setVariables(x);
      EXPECT(s.nv->getHash() == before, "hash", "the same values have another hash");
      s.nv->setVariables(y);
      EXPECT(s.nv->getHash() == h, "hash", "the same values have another hash");
    }
    if (!same && x.size() > 0)
    {
      EXPECT(s.nv->getHash() != before, "hash", "different values have the same hash");
    }
    x = y;
  }
  if (x.size() > 0)
    c.note(x(0));
  if (nodes > 0)
  {
    EXPECT(!s.nv->getNode(0)->hasVar("nobody"), "layout", "finds a variable that is not there");
    EXPECT_THROW_STD(s.nv->getNode(0)->getVar("nobody"), "refused", "a variable that is not there");
  }
}

FAMILY(observers, 20, 200)
{
  // an observer is registered where it is made and told about every change
  VarSet s = randVars(c, c.rng.range(1, 3), c.rng.range(1, 3), true);
  std::shared_ptr<Watch> w;
  c.note(s.x(0));
  c.event("observer");
  try
  {
    w = std::make_shared<Watch>(std::weak_ptr<NodesVariables>(s.nv));
  }
  catch (const std::bad_weak_ptr&)
  {
    EXPECT(false, "observer-construct", "an observer cannot be made: its constructor asks for the shared pointer that does not exist yet (std::bad_weak_ptr)");
  }
  const int n = c.rng.range(1, 4);
  for (int k = 0; k < n; ++k)
    s.nv->setVariables(randVec(c.rng, s.x.size()));
  EXPECT(w->calls == n, "observer-told", "told " << w->calls << " times of " << n << " changes");
}

FAMILY(single_variables, 15000, 60000)
{
  mon::Rng& r = c.rng;
  const int n = r.range(1, 5);
  VectorXd v(n);
  std::vector<Bounds> b;
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i)
  {
    v(i) = r.unif(-5, 5);
    b.push_back(randBounds(r));
    names.push_back("q" + std::to_string(i));
  }
  const Eigen::Index at = r.range(0, 4);
  Var var(at, "id", names, v, b);
  c.note(v(0));
  c.note(n);
  EXPECT(var.getIndex() == at && var.size() == n && var.getParent() == nullptr, "layout", "a variable of its own");
  for (int i = 0; i < n; ++i)
    EXPECT(var.value()(i) == clampRef(v(i), b[static_cast<std::size_t>(i)]), "clamped", v(i) << " became " << var.value()(i));
  Var one(at, "s", v(0), b[0]);
  EXPECT(one.size() == 1 && one.value()(0) == clampRef(v(0), b[0]) && one.name() == std::vector<std::string>{ "s" }, "clamped", "scalar variable");
  const VectorXd x = randVec(r, at + n + r.range(0, 3));
  var.setVariables(x);
  EXPECT(var.value() == x.segment(at, n), "values", "takes " << var.value().transpose());
  // malformed
  auto nm = names;
  nm.push_back("x");
  EXPECT_THROW_STD(Var(0, "bad", nm, v, b), "refused", "more names than values");
  auto bb = b;
  bb.pop_back();
  EXPECT_THROW_STD(Var(0, "bad", names, v, bb), "refused", "fewer bounds than names");
  VectorXd w(n + 1);
  w.setZero();
  EXPECT_THROW_STD(Var(0, "bad", names, w, b), "refused", "more values than names");
  c.event("variable");
}

// stacked and summed composites, nested
FAMILY(composites, 20000, 60000)
{
  mon::Rng& r = c.rng;
  VarSet s = randVars(c, r.range(1, 3), r.range(1, 3), false);
  const int n = s.nv->getRows();
  const bool sum = r.chance(0.4);
  const bool dynamic = r.chance(0.5);
  CompositeDifferentiable comp("all", n, sum ? Differentiable::Mode::kSumToScalar : Differentiable::Mode::kStackRows, dynamic);
  EXPECT(comp.empty() && comp.isScalar() == sum && comp.getName() == "all", "composite", "fresh");
  struct Part
  {
    std::vector<std::shared_ptr<RandSet>> sets;
  };
  std::vector<std::shared_ptr<RandSet>> sets;
  std::vector<std::shared_ptr<CompositeDifferentiable>> inner;
  const int parts = r.range(0, 4);
  for (int i = 0; i < parts; ++i)
  {
    auto set = std::make_shared<RandSet>(r, "s" + std::to_string(i), sum ? 1 : r.range(1, 4), n, r.chance(0.5), sum ? 4 : -1);
    set->linkWithVariables(s.nv);
    sets.push_back(set);
    if (!sum && r.chance(0.2))
    {
      auto in = std::make_shared<CompositeDifferentiable>("in" + std::to_string(i), n, Differentiable::Mode::kStackRows, dynamic);
      in->addComponent(set);
      comp.addComponent(in);
      inner.push_back(in);
    }
    else
    {
      comp.addComponent(set);
      EXPECT(comp.getComponent("s" + std::to_string(i)) == set, "composite", "component by name");
    }
  }
  c.trace << " sum " << sum << " parts " << parts << " nested " << inner.size();
  c.note(sum);
  c.note(parts);
  c.note(n);
  c.note(s.x(0));
  int rows = sum ? 1 : 0;
  for (const auto& t : sets)
    rows += sum ? 0 : t->getRows();
  VectorXd x = s.x;
  for (int round = 0; round < 2; ++round)
  {
    const int up = comp.update();
    EXPECT(up == rows && comp.getRows() == rows, "rows", "update gives " << up << " rows, getRows " << comp.getRows() << ", expected " << rows);
    VectorXd v = VectorXd::Zero(rows), co = VectorXd::Zero(rows);
    MatrixXd J = MatrixXd::Zero(rows, n);
    std::vector<Bounds> b;
    int at = 0;
    for (const auto& t : sets)
    {
      EXPECT(t->updates > round, "update", "a component was updated " << t->updates << " times in " << round + 1);
      v.segment(at, t->getRows()) += t->ref(x);
      co.segment(at, t->getRows()) += t->coeffs;
      J.middleRows(at, t->getRows()) += t->refJac(x);
      if (!sum)
        at += t->getRows();
      if (!sum || b.empty())
        b.insert(b.end(), t->bnds.begin(), t->bnds.end());
    }
    const VectorXd gv = comp.getValues(), gc = comp.getCoefficients();
    const MatrixXd gj = dense(comp.getJacobian());
    const auto gb = comp.getBounds();
    EXPECT(gv.size() == rows && gc.size() == rows && gj.rows() == rows && gj.cols() == n && gb.size() == static_cast<std::size_t>(rows), "rows",
           "values " << gv.size() << ", coefficients " << gc.size() << ", Jacobian " << gj.rows() << ", bounds " << gb.size() << ", expected " << rows);
    for (int i = 0; i < rows; ++i)
    {
      EXPECT_CLOSE(gv(i), v(i), "value", "row " << i);
      EXPECT_CLOSE(gc(i), co(i), "coefficients", "row " << i);
      for (int j = 0; j < n; ++j)
        EXPECT_CLOSE(gj(i, j), J(i, j), "jacobian", "(" << i << "," << j << ")");
      if (!sum)
        EXPECT(gb[static_cast<std::size_t>(i)].getLower() == b[static_cast<std::size_t>(i)].getLower() && gb[static_cast<std::size_t>(i)].getUpper() == b[static_cast<std::size_t>(i)].getUpper(), "bounds", "row " << i);
      else
        EXPECT(gb[static_cast<std::size_t>(i)].getType() == BoundsType::kUnbounded, "bounds", "a sum of costs is unbounded");
    }
    EXPECT(parts == 0 || comp.getNonZeros() >= comp.getJacobian().nonZeros(), "nonzeros", comp.getNonZeros() << " of " << comp.getJacobian().nonZeros());
    x = randVec(r, n);
    s.nv->setVariables(x);
    c.event(sum ? "summed" : "stacked");
  }
  comp.clearComponents();
  EXPECT(comp.empty() && comp.getRows() == (sum ? 1 : 0) && comp.getComponents().empty(), "composite", "cleared");
}

FAMILY(problems, 30000, 80000)
{
  mon::Rng& r = c.rng;
  VarSet s = randVars(c, r.range(1, 3), r.range(1, 4), r.chance(0.5));
  const int n = s.nv->getRows();
  Problem nlp(s.nv);
  EXPECT(!nlp.hasCostTerms() && nlp.getNumberOfConstraints() == 0 && nlp.evaluateCostFunction() == 0 && nlp.getIterationCount() == 0, "problem", "fresh");
  EXPECT(nlp.evaluateCostFunctionGradient() == VectorXd::Zero(n), "problem", "gradient of no cost");
  std::vector<std::shared_ptr<RandSet>> cnts, cost_sets;
  struct Cost
  {
    std::shared_ptr<RandSet> set;
    VectorXd w;
    bool squared;
  };
  std::vector<Cost> costs;
  const int nc = r.range(0, 3), nk = r.range(0, 3);
  int rows = 0;
  for (int i = 0; i < nc; ++i)
  {
    cnts.push_back(std::make_shared<RandSet>(r, "c" + std::to_string(i), r.range(1, 3), n, r.chance(0.5)));
    nlp.addConstraintSet(cnts.back());
    rows += cnts.back()->getRows();
  }
  for (int i = 0; i < nk; ++i)
  {
    Cost k;
    k.set = std::make_shared<RandSet>(r, "k" + std::to_string(i), r.range(1, 3), n, r.chance(0.5));
    k.set->linkWithVariables(s.nv);
    k.w = VectorXd(k.set->getRows());
    for (Eigen::Index j = 0; j < k.w.size(); ++j)
      k.w(j) = r.unif(0.1, 3);
    k.squared = r.chance(0.7);
    if (k.squared)
      nlp.addCostSet(std::make_shared<SquaredCost>(k.set, k.w));
    else
      nlp.addCostSet(std::make_shared<AbsoluteCost>(k.set, k.w));
    costs.push_back(k);
  }
  c.trace << " n " << n << " constraints " << nc << " costs " << nk;
  c.note(n);
  c.note(nc);
  c.note(nk);
  c.note(s.x(0));
  EXPECT(nlp.hasCostTerms() == (nk > 0) && nlp.getNumberOfConstraints() == rows && nlp.getNumberOfOptimizationVariables() == n, "problem", "sizes");
  EXPECT(nlp.getOptVariables() == s.nv && nlp.getCosts().getComponents().size() == static_cast<std::size_t>(nk) && nlp.getConstraints().getComponents().size() == static_cast<std::size_t>(nc), "problem", "parts");
  const auto vb = nlp.getBoundsOnOptimizationVariables();
  EXPECT(vb.size() == s.bounds.size(), "bounds", "of the variables");
  std::vector<VectorXd> history;
  VectorXd x = s.x;
  for (int op = r.range(2, 6); op > 0; --op)
  {
    const int what = r.range(0, 5);
    c.note(what);
    if (what <= 2)
    {
      x = randVec(r, n, 2);
      std::vector<int> before;
      for (auto& t : cnts)
        before.push_back(t->updates);
      for (auto& t : costs)
        before.push_back(t.set->updates);
      nlp.setVariables(x.data());
      std::size_t i = 0;
      for (auto& t : cnts)
        EXPECT(t->updates > before[i++] && t->updated_at == x, "update", "a constraint is not updated with the variables");
      for (auto& t : costs)
        EXPECT(t.set->updates > before[i++] && t.set->updated_at == x, "update", "a cost is not updated with the variables");
    }
    else if (what == 3)
    {
      nlp.saveCurrent();
      history.push_back(x);
    }
    else if (what == 4 && !history.empty())
    {
      const int i = r.range(0, static_cast<int>(history.size()) - 1);
      nlp.setOptVariables(i);
      x = history[static_cast<std::size_t>(i)];
      c.event("restored");
    }
    else if (what == 5 && !history.empty())
    {
      nlp.setOptVariablesFinal();
      x = history.back();
      c.event("restored");
    }
    EXPECT(nlp.getIterationCount() == static_cast<int>(history.size()), "history", "iterations");
    for (std::size_t i = 0; i < history.size(); ++i)
      EXPECT(nlp.getIterations()[i] == history[i], "history", "iteration " << i);
    EXPECT(nlp.getVariableValues() == x, "values", "variables");
    // constraints
    const VectorXd g = nlp.evaluateConstraints();
    const auto b = nlp.getBoundsOnConstraints();
    const Jacobian sj = nlp.getJacobianOfConstraints();
    const MatrixXd J = dense(sj);
    EXPECT(g.size() == rows && b.size() == static_cast<std::size_t>(rows) && J.rows() == rows && J.cols() == n, "rows", "constraints");
    int at = 0;
    for (auto& t : cnts)
    {
      const VectorXd v = t->ref(x);
      const MatrixXd D = t->refJac(x);
      for (int i = 0; i < t->getRows(); ++i, ++at)
      {
        EXPECT_CLOSE(g(at), v(i), "value", "constraint row " << at);
        EXPECT(b[static_cast<std::size_t>(at)].getLower() == t->bnds[static_cast<std::size_t>(i)].getLower() && b[static_cast<std::size_t>(at)].getUpper() == t->bnds[static_cast<std::size_t>(i)].getUpper(), "bounds", "constraint row " << at);
        for (int j = 0; j < n; ++j)
          EXPECT_CLOSE(J(at, j), D(i, j), "jacobian", "(" << at << "," << j << ")");
      }
    }
    std::vector<double> nz(static_cast<std::size_t>(sj.nonZeros()) + 1, -77.0);
    nlp.evalNonzerosOfJacobian(nz.data());
    EXPECT(nz.back() == -77.0, "nonzeros", "writes past the non-zeros");
    std::size_t k = 0;
    for (int i = 0; i < sj.outerSize(); ++i)
      for (Jacobian::InnerIterator it(sj, i); it; ++it)
        EXPECT(nz[k++] == it.value(), "nonzeros", "non-zero " << k);
    // costs
    double total = 0;
    VectorXd grad = VectorXd::Zero(n);
    bool tie = false;
    const VectorXd cv = nk > 0 ? nlp.getCosts().getValues() : VectorXd();
    for (std::size_t q = 0; q < costs.size(); ++q)
    {
      const Cost& t = costs[q];
      const VectorXd y = t.set->ref(x);
      const MatrixXd D = t.set->refJac(x);
      double v = 0;
      for (Eigen::Index i = 0; i < y.size(); ++i)
      {
        const double e = errRef(y(i), t.set->bnds[static_cast<std::size_t>(i)]);
        tie |= !t.squared && std::min(std::abs(y(i) - t.set->bnds[static_cast<std::size_t>(i)].getLower()), std::abs(y(i) - t.set->bnds[static_cast<std::size_t>(i)].getUpper())) < 1e-9;
        v += t.w(i) * (t.squared ? e * e : std::abs(e));
        grad += t.w(i) * (t.squared ? 2 * e : (e > 0 ? 1.0 : (e < 0 ? -1.0 : 0.0))) * D.row(i).transpose();
      }
      EXPECT_CLOSE(cv(static_cast<Eigen::Index>(q)), v, "cost", "cost " << q);
      total += v;
    }
    EXPECT_NEAR_TOL(nlp.evaluateCostFunction(), total, 1e-9 * (1 + total), "total", "the cost function of " << nk << " costs");
    if (!tie)
    {
      const VectorXd gg = nlp.evaluateCostFunctionGradient();
      EXPECT(gg.size() == n, "gradient", "size");
      for (int j = 0; j < n; ++j)
        EXPECT_NEAR_TOL(gg(j), grad(j), 1e-9 * (1 + std::abs(grad(j)) + total), "gradient", "the gradient of " << nk << " costs, column " << j);
    }
    c.event(nk > 1 ? "several_costs" : "few_costs");
  }
}

MON_MAIN
