// C22: joint position, velocity, acceleration and jerk terms of trajopt, and the helpers trajectories are stored and read with.
// Oracle: finite differences written out here.
#include "aux_min.h"
#include <trajopt/trajectory_costs.hpp>
#include <trajopt/utils.hpp>
#include <set>
using namespace sco;
using namespace scou;
using namespace trajopt;

namespace
{
struct Term
{
  int order{ 0 };  // 0 position .. 3 jerk
  bool cost{ false }, eq{ false };
  int first{ 0 }, last{ 0 };
  Eigen::VectorXd coeffs, targets, upper, lower;
  VarArray vars;
  std::shared_ptr<Cost> c;
  std::shared_ptr<Constraint> k;
};
template <class EC, class IC, class EK, class IK>
void make(Term& t)
{
  if (t.cost && t.eq)
    t.c = std::make_shared<EC>(t.vars, t.coeffs, t.targets, t.first, t.last);
  else if (t.cost)
    t.c = std::make_shared<IC>(t.vars, t.coeffs, t.targets, t.upper, t.lower, t.first, t.last);
  else if (t.eq)
    t.k = std::make_shared<EK>(t.vars, t.coeffs, t.targets, t.first, t.last);
  else
    t.k = std::make_shared<IK>(t.vars, t.coeffs, t.targets, t.upper, t.lower, t.first, t.last);
}
void make(Term& t)
{
  switch (t.order)
  {
    case 0: make<JointPosEqCost, JointPosIneqCost, JointPosEqConstraint, JointPosIneqConstraint>(t); break;
    case 1: make<JointVelEqCost, JointVelIneqCost, JointVelEqConstraint, JointVelIneqConstraint>(t); break;
    case 2: make<JointAccEqCost, JointAccIneqCost, JointAccEqConstraint, JointAccIneqConstraint>(t); break;
    default: make<JointJerkEqCost, JointJerkIneqCost, JointJerkEqConstraint, JointJerkIneqConstraint>(t); break;
  }
}
/// the derivative minus the target at every (step, joint) the term covers
std::vector<std::pair<int, double>> errors(const Term& t, const DblVec& x)
{
  static const double W[4][4] = { { 1, 0, 0, 0 }, { -1, 1, 0, 0 }, { 1, -2, 1, 0 }, { -1, 3, -3, 1 } };
  std::vector<std::pair<int, double>> out;
  for (int s = t.first; s + t.order <= t.last; ++s)
    for (int j = 0; j < t.vars.cols(); ++j)
    {
      double d = -t.targets(j);
      for (int q = 0; q <= t.order; ++q)
        d += W[t.order][q] * x[t.vars(s + q, j).var_rep->index];
      out.emplace_back(j, d);
    }
  return out;
}
double costOf(const Term& t, const DblVec& x)
{
  double v = 0;
  for (auto& e : errors(t, x))
    if (t.eq)
      v += t.coeffs(e.first) * e.second * e.second;
    else
      v += t.coeffs(e.first) * (std::max(0.0, e.second - t.upper(e.first)) + std::max(0.0, t.lower(e.first) - e.second));
  return v;
}
std::string name(const Term& t)
{
  static const char* o[] = { "pos", "vel", "acc", "jerk" };
  return std::string(o[t.order]) + (t.eq ? "-eq-" : "-ineq-") + (t.cost ? "cost" : "constraint");
}
bool sameList(DblVec a, DblVec b, double tol)
{
  if (a.size() != b.size())
    return false;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  for (std::size_t i = 0; i < a.size(); ++i)
    if (!(std::fabs(a[i] - b[i]) <= tol))
      return false;
  return true;
}
std::string list(const DblVec& v)
{
  std::ostringstream o;
  for (double d : v)
    o << d << " ";
  return o.str();
}
}  // namespace

FAMILY(joint_terms, 6000, 200000)
{
  mon::Rng& r = c.rng;
  RefModel m;
  const int steps = r.range(1, 8), dof = r.range(1, 4);
  Term t;
  t.order = r.range(0, 3);
  t.cost = r.chance(0.5);
  t.eq = r.chance(0.5);
  // variables of the steps, possibly of a wider array, possibly not in the order of the model
  const int cols = dof + (r.chance(0.3) ? r.range(1, 2) : 0), off = cols == dof ? 0 : r.range(0, cols - dof);
  VarVector all;
  for (int i = 0; i < steps * cols + r.range(0, 3); ++i)
    all.push_back(m.addVar("v" + std::to_string(i)));
  VarVector use = all;
  if (r.chance(0.3))
    r.shuffle(use);
  VarArray whole(steps, cols);
  for (int s = 0; s < steps; ++s)
    for (int j = 0; j < cols; ++j)
      whole(s, j) = use[static_cast<std::size_t>(s * cols + j)];
  t.vars = whole.block(0, off, steps, dof);
  t.first = r.range(0, steps - 1);
  t.last = r.range(t.first, steps - 1);
  t.coeffs.resize(dof);
  t.targets.resize(dof);
  t.upper.resize(dof);
  t.lower.resize(dof);
  for (int j = 0; j < dof; ++j)
  {
    t.coeffs(j) = r.chance(0.1) ? 0.0 : std::pow(10.0, r.unif(-1.5, 1.5));
    t.targets(j) = r.chance(0.4) ? 0.0 : r.unif(-1, 1);
    t.upper(j) = r.chance(0.2) ? 0.0 : r.unif(-0.5, 1);
    t.lower(j) = t.upper(j) - (r.chance(0.2) ? 0.0 : r.unif(0, 1));
  }
  c.note(t.order);
  c.note(name(t));
  c.note(steps);
  c.note(t.first);
  c.note(t.last);
  c.note(dof);
  c.note(t.coeffs(0));
  const std::string key = name(t);
  const bool shortRange = t.last - t.first < t.order;
  bool refused = false;
  try
  {
    make(t);
  }
  catch (const std::runtime_error&)
  {
    refused = true;
  }
  EXPECT(refused == shortRange, "range:" + key, "steps " << t.first << ".." << t.last << (refused ? " refused" : " accepted"));
  if (refused)
  {
    c.event("too_short");
    return;
  }
  const std::size_t nprob = all.size();
  auto point = [&] {
    DblVec x(nprob);
    const double sc = r.chance(0.3) ? 0.2 : 2.0;
    for (auto& v : x)
      v = r.unif(-sc, sc);
    return x;
  };
  auto tol = [&](double v) { return 1e-9 * (1 + std::fabs(v)) + 1e-7; };
  const VarVector gv = t.cost ? t.c->getVars() : t.k->getVars();
  std::set<std::size_t> want, got;
  for (int s = 0; s < steps; ++s)
    for (int j = 0; j < dof; ++j)
      want.insert(t.vars(s, j).var_rep->index);
  for (auto& v : gv)
    got.insert(v.var_rep->index);
  EXPECT(want == got && gv.size() == want.size(), "variables:" + key, "other variables");
  const std::size_t cnts0 = m.cnts.size();
  for (int round = r.range(1, 2); round > 0; --round)
  {
    const DblVec x0 = point();
    if (t.cost)
    {
      EXPECT(std::fabs(t.c->value(x0) - costOf(t, x0)) <= tol(costOf(t, x0)), "value:" + key, t.c->value(x0) << ", not " << costOf(t, x0));
      auto o = t.c->convex(x0, &m);
      o->addConstraintsToModel();
      for (int q = 0; q < 2; ++q)
      {
        const DblVec x1 = q == 0 ? x0 : point();
        const double w = costOf(t, x1), g = minOverAux(c, m, *o, x1, nprob);
        EXPECT(std::fabs(g - w) <= 1e-7 * (1 + w), "convex:" + key, "convexified " << g << ", the cost is " << w);
        EXPECT(std::fabs(t.c->value(x1) - w) <= tol(w), "value:" + key, t.c->value(x1) << ", not " << w);
      }
      c.event("costs");
    }
    else
    {
      EXPECT(t.k->type() == (t.eq ? EQ : INEQ), "type:" + key, "type");
      auto o = t.k->convex(x0, &m);
      EXPECT(t.eq ? o->ineqs_.empty() : o->eqs_.empty(), "type:" + key, "rows of the other type");
      for (int q = 0; q < 2; ++q)
      {
        const DblVec x1 = q == 0 ? x0 : point();
        DblVec rows, vals, viol;
        for (auto& e : errors(t, x1))
        {
          const double cf = t.coeffs(e.first);
          if (t.eq)
          {
            rows.push_back(cf * e.second);
            vals.push_back(cf * e.second * e.second);  // as documented: zero where the row is
            viol.push_back(std::fabs(vals.back()));
          }
          else
            for (double v : { cf * (e.second - t.upper(e.first)), cf * (t.lower(e.first) - e.second) })
            {
              rows.push_back(v);
              vals.push_back(std::max(0.0, v));
              viol.push_back(std::max(0.0, v));
            }
        }
        DblVec grows, gvals = t.k->value(x1), gviol = t.k->violations(x1);
        for (auto& a : t.eq ? o->eqs_ : o->ineqs_)
          grows.push_back(a.value(x1));
        EXPECT(sameList(grows, rows, 1e-7), "convex:" + key, "rows " << list(grows) << ", not " << list(rows));
        if (!t.eq)
          for (auto& v : gvals)
            v = std::max(0.0, v);  // satisfied rows may be reported as they are or as zero
        EXPECT(sameList(gvals, vals, 1e-7), "value:" + key, "values " << list(gvals) << ", not " << list(vals));
        EXPECT(sameList(gviol, viol, 1e-7), "violations:" + key, "violations " << list(gviol) << ", not " << list(viol));
        double sum = 0;
        for (double v : viol)
          sum += v;
        EXPECT(std::fabs(t.k->violation(x1) - sum) <= tol(sum), "violation:" + key, t.k->violation(x1) << ", not " << sum);
      }
      c.event("constraints");
    }
  }
  for (std::size_t i = cnts0; i < m.cnts.size(); ++i)
    EXPECT(m.cnts[i].removed, "left-behind:" + key, "a constraint stays in the model");
  for (std::size_t i = nprob; i < m.vars.size(); ++i)
    EXPECT(m.vars[i].removed, "left-behind:" + key, "a variable stays in the model");
}

FAMILY(arrays, 2500, 60000)
{
  mon::Rng& r = c.rng;
  OptProb prob(ModelType::BPMPD);
  // several arrays at once, on top of existing variables
  const int pre = r.range(0, 3), rows = r.range(1, 6), k = r.range(1, 3);
  std::vector<std::string> nm;
  for (int i = 0; i < pre; ++i)
    nm.push_back("old" + std::to_string(i));
  prob.createVariables(nm);
  std::vector<int> cols;
  std::vector<std::string> prefix;
  std::vector<VarArray> arr(static_cast<std::size_t>(k));
  std::vector<VarArray*> ptr;
  int total = pre;
  for (int i = 0; i < k; ++i)
  {
    cols.push_back(r.range(i ? 0 : 1, 4));
    prefix.push_back(std::string(1, static_cast<char>('a' + i)));
    ptr.push_back(&arr[static_cast<std::size_t>(i)]);
    total += rows * cols.back();
  }
  if (k == 1 && r.chance(0.5))
    AddVarArray(prob, rows, cols[0], prefix[0], arr[0]);
  else
    AddVarArrays(prob, rows, cols, prefix, ptr);
  c.note(rows);
  c.note(total);
  c.note(pre);
  c.event("arrays");
  EXPECT(prob.getNumVars() == total, "arrays:count", prob.getNumVars() << " variables, not " << total);
  std::set<std::size_t> seen;
  DblVec x(static_cast<std::size_t>(total));
  for (auto& v : x)
    v = r.num();
  for (int a = 0; a < k; ++a)
  {
    const VarArray& v = arr[static_cast<std::size_t>(a)];
    EXPECT(v.rows() == rows && v.cols() == cols[static_cast<std::size_t>(a)], "arrays:size", "array " << a << " is " << v.rows() << "x" << v.cols());
    AffArray aff(v.rows(), v.cols());
    TrajArray wantAff(v.rows(), v.cols());
    for (int i = 0; i < v.rows(); ++i)
      for (int j = 0; j < v.cols(); ++j)
      {
        const VarRep& rep = *v(i, j).var_rep;
        EXPECT(seen.insert(rep.index).second && rep.index >= static_cast<std::size_t>(pre), "arrays:shared", "a variable is used twice");
        EXPECT(rep.name == prefix[static_cast<std::size_t>(a)] + "_" + std::to_string(i) + "_" + std::to_string(j), "arrays:name", rep.name);
        EXPECT(prob.getVars()[rep.index].var_rep == v(i, j).var_rep, "arrays:problem", "not the problem's variable");
        const double f = r.num(), g = r.num();
        aff(i, j) = exprAdd(exprMult(AffExpr(v(i, j)), f), g);
        wantAff(i, j) = f * x[rep.index] + g;
      }
    const TrajArray t = getTraj(x, v);
    EXPECT(t.rows() == v.rows() && t.cols() == v.cols(), "getTraj:size", "size");
    for (int i = 0; i < v.rows(); ++i)
      for (int j = 0; j < v.cols(); ++j)
        EXPECT(t(i, j) == x[v(i, j).var_rep->index], "getTraj", "entry " << i << "," << j);
    const TrajArray ta = getTraj(x, aff);
    EXPECT(ta.rows() == v.rows() && ta.cols() == v.cols() && (ta.size() == 0 || (ta - wantAff).cwiseAbs().maxCoeff() <= 1e-9 * (1 + wantAff.cwiseAbs().maxCoeff())), "getTraj-expressions",
           ta << "\nnot\n" << wantAff);
    const DblVec back = trajToDblVec(t);
    EXPECT(back.size() == static_cast<std::size_t>(t.size()), "trajToDblVec", "size");
    for (int i = 0; i < v.rows(); ++i)
      for (int j = 0; j < v.cols(); ++j)
        EXPECT(back[static_cast<std::size_t>(i * v.cols() + j)] == t(i, j), "trajToDblVec", "not row by row");
  }
}

FAMILY(subsets, 2500, 60000)
{
  mon::Rng& r = c.rng;
  std::vector<std::string> pool;
  for (int i = 0; i < 8; ++i)
    pool.push_back("j" + std::to_string(i));
  r.shuffle(pool);
  const int n = r.range(1, 7);
  const std::vector<std::string> sup(pool.begin(), pool.begin() + n);
  std::vector<std::string> sub = sup;
  r.shuffle(sub);
  sub.resize(static_cast<std::size_t>(r.range(0, n)));
  const bool foreign = r.chance(0.3);
  if (foreign)
    sub.insert(sub.begin() + r.range(0, static_cast<int>(sub.size())), pool[7]);
  auto vec = [&](std::size_t k) {
    Eigen::VectorXd v(static_cast<Eigen::Index>(k));
    for (Eigen::Index i = 0; i < v.size(); ++i)
      v(i) = r.num();
    return v;
  };
  const Eigen::VectorXd sv = vec(sup.size()), bv = vec(sub.size());
  auto at = [&](const std::string& s) { return static_cast<Eigen::Index>(std::find(sup.begin(), sup.end(), s) - sup.begin()); };
  c.note(n);
  c.note(static_cast<int>(sub.size()));
  c.note(foreign);
  c.note(sv(0));
  c.event("subsets");
  EXPECT(isSuperset(sub, sup) == (!foreign && sub.size() < sup.size()), "isSuperset", "isSuperset is " << isSuperset(sub, sup));
  std::cout.setstate(std::ios::failbit);
  Eigen::VectorXd out = vec(sup.size());
  const bool ok = updateFromSubset(sup, sv, sub, bv, out);
  std::cout.clear();
  EXPECT(ok == !foreign, "updateFromSubset", "result " << ok);
  if (ok)
  {
    Eigen::VectorXd w = sv;
    for (std::size_t i = 0; i < sub.size(); ++i)
      w(at(sub[i])) = bv(static_cast<Eigen::Index>(i));
    EXPECT(out == w, "updateFromSubset", out.transpose() << ", not " << w.transpose());
  }
  Eigen::VectorXd g = vec(sub.size());
  const Eigen::VectorXd g0 = g;
  const bool ok2 = getSubset(sup, sv, sub, g);
  EXPECT(ok2 == !foreign, "getSubset", "result " << ok2);
  for (std::size_t i = 0; i < sub.size(); ++i)
    EXPECT(g(static_cast<Eigen::Index>(i)) == (ok2 ? sv(at(sub[i])) : g0(static_cast<Eigen::Index>(i))), "getSubset", "entry " << i);
}
MON_MAIN
