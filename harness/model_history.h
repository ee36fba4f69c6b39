// Histories of a solver model beside the list of what it should hold; solutions are compared with an active-set enumeration.
#pragma once
#include "sco_util.h"
#include <trajopt_sco/modeling.hpp>
namespace mh
{
using namespace sco;
using namespace scou;
struct MV
{
  Var var;
  std::string name;
  double lb, ub;
  bool live{ true };
  double mid{ 0 };  ///< every row of a history holds here
  bool bounded() const { return std::isfinite(lb) && std::isfinite(ub); }
  double lo() const { return std::isfinite(lb) ? lb : std::isfinite(ub) ? ub - 2 : -1; }
  double hi() const { return std::isfinite(ub) ? ub : lo() + 2; }
};
struct MC
{
  Cnt cnt;
  std::vector<std::pair<int, double>> terms;  // by position in mv
  double constant;
  ConstraintType type;
  bool live{ true };
};
using Factory = std::function<Model::Ptr()>;
struct Tol
{
  double feas{ 1e-5 };
  double opt{ 2e-5 };
  std::function<bool()> excuse{ [] { return true; } };  ///< whether the solver may have given up on a feasible problem
  int max_vars{ 5 };
};
/// the model under test beside the list of what it should hold
struct Beside
{
  Model::Ptr m;
  std::vector<MV> mv;
  std::vector<MC> mc;
  std::vector<std::pair<int, double>> g;
  std::vector<std::tuple<int, int, double>> q;
  double c0{ 0 };
  Tol tol;
  explicit Beside(const Tol& t) : tol(t) {}
  std::vector<int> live() const
  {
    std::vector<int> r;
    for (std::size_t i = 0; i < mv.size(); ++i)
      if (mv[i].live)
        r.push_back(static_cast<int>(i));
    return r;
  }
  AffExpr aff(const std::vector<std::pair<int, double>>& t, double k) const
  {
    AffExpr e;
    e.constant = k;
    for (const auto& x : t)
    {
      e.vars.push_back(mv[static_cast<std::size_t>(x.first)].var);
      e.coeffs.push_back(x.second);
    }
    return e;
  }
  bool used(int i) const
  {
    for (const auto& x : g)
      if (x.first == i)
        return true;
    for (const auto& x : q)
      if (std::get<0>(x) == i || std::get<1>(x) == i)
        return true;
    for (const auto& k : mc)
      if (k.live)
        for (const auto& x : k.terms)
          if (x.first == i)
            return true;
    return false;
  }
  TinyQP oracle(const std::vector<int>& lv) const
  {
    std::map<int, int> pos;
    for (std::size_t i = 0; i < lv.size(); ++i)
      pos[lv[i]] = static_cast<int>(i);
    const auto n = static_cast<int>(lv.size());
    TinyQP o(n);
    o.obj.c = c0;
    for (const auto& x : g)
      o.obj.g(pos.at(x.first)) += x.second;
    for (const auto& x : q)
    {
      o.obj.Q(pos.at(std::get<0>(x)), pos.at(std::get<1>(x))) += 0.5 * std::get<2>(x);
      o.obj.Q(pos.at(std::get<1>(x)), pos.at(std::get<0>(x))) += 0.5 * std::get<2>(x);
    }
    for (const auto& k : mc)
    {
      if (!k.live)
        continue;
      Eigen::VectorXd a = Eigen::VectorXd::Zero(n);
      for (const auto& x : k.terms)
        a(pos.at(x.first)) += x.second;
      if (k.type == EQ) { o.eq_a.push_back(a); o.eq_c.push_back(k.constant); }
      else { o.in_a.push_back(a); o.in_c.push_back(k.constant); }
    }
    for (int i = 0; i < n; ++i)
    {
      const auto& v = mv[static_cast<std::size_t>(lv[static_cast<std::size_t>(i)])];
      Eigen::VectorXd a = Eigen::VectorXd::Unit(n, i);
      if (std::isfinite(v.ub)) { o.in_a.push_back(a); o.in_c.push_back(-v.ub); }
      if (std::isfinite(v.lb)) { o.in_a.emplace_back(-a); o.in_c.push_back(v.lb); }
    }
    return o;
  }
};
inline void checkVars(mon::Case& c, Beside& b)
{
  const VarVector vs = b.m->getVars();
  const auto lv = b.live();
  EXPECT(vs.size() == lv.size(), "variables", "the model has " << vs.size() << " variables, should have " << lv.size());
  std::set<std::string> names, want;
  for (const auto& v : vs)
    names.insert(v.var_rep->name);
  for (int i : lv)
    want.insert(b.mv[static_cast<std::size_t>(i)].name);
  EXPECT(names == want, "variables", "the model's variables are not the ones added and not removed");
  std::set<std::size_t> idx;
  for (int i : lv)
    idx.insert(b.mv[static_cast<std::size_t>(i)].var.var_rep->index);
  EXPECT(idx.size() == lv.size() && (idx.empty() || *idx.rbegin() == lv.size() - 1), "indices", "variable indices are not 0..n-1 after update");
}
inline void addVars(mon::Case& c, Beside& b, int k, bool box = false)
{
  for (int i = 0; i < k; ++i)
  {
    MV v;
    v.name = "v" + std::to_string(b.mv.size());
    v.lb = c.rng.unif(-3, 0.5);
    v.ub = v.lb + (c.rng.chance(0.1) ? 0.0 : c.rng.unif(0.2, 4));
    const int kind = box ? 11 : c.rng.range(0, 11);
    if (kind < 2)
      v.ub = INFINITY;
    if (kind == 0 || kind == 2)
      v.lb = -INFINITY;
    if (kind == 0 && c.rng.chance(0.5))
      v.var = b.m->addVar(v.name);
    else
      v.var = b.m->addVar(v.name, v.lb, v.ub);
    v.mid = 0.5 * (v.lo() + v.hi());
    b.mv.push_back(v);
  }
}
/// a random objective, convex by construction, of the live variables; possibly purely affine
inline void setObjective(mon::Case& c, Beside& b, bool affine)
{
  const auto lv = b.live();
  b.g.clear();
  b.q.clear();
  b.c0 = c.rng.num();
  for (int k = c.rng.range(0, 4); k > 0; --k)
    b.g.emplace_back(c.rng.pick(lv), c.rng.unif(-3, 3));
  AffExpr a = b.aff(b.g, b.c0);
  for (int i : lv)
    affine = affine && b.mv[static_cast<std::size_t>(i)].bounded();
  if (affine)
  {
    b.m->setObjective(a);
    c.event("affine_objective");
    return;
  }
  QuadExpr e(a);
  for (int k = c.rng.range(1, 4); k > 0; --k)
  {  // (sum w_i x_i)^2, terms left as they come: both orders, repeated
    std::vector<std::pair<int, double>> t;
    for (int j = c.rng.range(1, 3); j > 0; --j)
      t.emplace_back(c.rng.pick(lv), c.rng.chance(0.2) ? 0.0 : c.rng.unif(-2, 2));
    for (const auto& x : t)
      for (const auto& y : t)
      {
        e.vars1.push_back(b.mv[static_cast<std::size_t>(x.first)].var);
        e.vars2.push_back(b.mv[static_cast<std::size_t>(y.first)].var);
        e.coeffs.push_back(x.second * y.second);
        b.q.emplace_back(x.first, y.first, x.second * y.second);
      }
  }
  for (int i : lv)
    if (!b.mv[static_cast<std::size_t>(i)].bounded())
    {  // keeps the problem bounded
      e.vars1.push_back(b.mv[static_cast<std::size_t>(i)].var);
      e.vars2.push_back(b.mv[static_cast<std::size_t>(i)].var);
      e.coeffs.push_back(0.5);
      b.q.emplace_back(i, i, 0.5);
    }
  b.m->setObjective(e);
  c.event("quadratic_objective");
}
/// satisfied at a point inside the box, unless `impossible`
inline void addCnt(mon::Case& c, Beside& b, const std::map<int, double>& inside, bool allow_eq)
{
  const auto lv = b.live();
  MC k;
  k.type = allow_eq && c.rng.chance(0.4) ? EQ : INEQ;
  double at = 0;
  for (int j = c.rng.range(1, 4); j > 0; --j)
  {
    const int i = c.rng.pick(lv);
    const double w = c.rng.nonzero(0.2, 2);
    k.terms.emplace_back(i, w);
    at += w * inside.at(i);
  }
  k.constant = -at - (k.type == EQ ? 0.0 : c.rng.chance(0.3) ? 0.0 : c.rng.unif(0, 2));
  const AffExpr e = b.aff(k.terms, k.constant);
  k.cnt = k.type == EQ ? b.m->addEqCnt(e, "k") : b.m->addIneqCnt(e, "k");
  b.mc.push_back(k);
}
inline void solveAndCompare(mon::Case& c, Beside& b)
{
  const auto lv = b.live();
  const TinyQP o = b.oracle(lv);
  const CvxOptStatus st = b.m->optimize();
  const auto r = o.solve();
  const bool feasible = std::get<0>(r);
  if (!feasible)
  {  // near-empty sets are a matter of tolerance: only count clear ones (decided by the caller)
    EXPECT(st != CVX_SOLVED, "infeasible-solved", "an infeasible problem was reported as solved");
    c.event("infeasible");
    return;
  }
  if (st == CVX_FAILED && b.tol.excuse())
  {
    c.event("solver_gave_up");
    return;
  }
  EXPECT(st == CVX_SOLVED, "feasible-not-solved", "a feasible bounded problem was reported with status " << int(st));
  VarVector vs;
  std::vector<int> order = lv;
  c.rng.shuffle(order);
  for (int i : order)
    vs.push_back(b.mv[static_cast<std::size_t>(i)].var);
  const DblVec val = b.m->getVarValues(vs);
  EXPECT(val.size() == vs.size(), "values", "wrong number of values");
  Eigen::VectorXd x(static_cast<Eigen::Index>(lv.size()));
  for (std::size_t i = 0; i < order.size(); ++i)
  {
    const auto p = std::find(lv.begin(), lv.end(), order[i]) - lv.begin();
    x(p) = val[i];
    EXPECT(b.m->getVarValue(vs[i]) == val[i], "values", "the value of one variable differs from the list's");
  }
  EXPECT(o.violation(x) < b.tol.feas * (1 + x.cwiseAbs().maxCoeff()), "infeasible-solution", "the solution violates a constraint or bound by " << o.violation(x));
  const double got = o.obj.value(x), want = std::get<1>(r), sc = 1 + std::fabs(want) + mag(o.obj);
  EXPECT(std::fabs(got - want) <= b.tol.opt * sc, "not-optimal", "objective " << got << " at the solution [" << x.transpose() << "], optimum " << want << " at [" << std::get<2>(r).transpose() << "], objective " << str(o.obj));
  c.event("optimal");
}
inline std::map<int, double> inside(mon::Case& c, const Beside& b)
{
  std::map<int, double> r;
  for (int i : b.live())
  {
    const auto& v = b.mv[static_cast<std::size_t>(i)];
    r[i] = v.lo() + (v.hi() - v.lo()) * c.rng.unif(0.2, 0.8);
  }
  return r;
}

inline void oneProblem(mon::Case& c, const Factory& make, const Tol& tol)
{
  Beside b(tol);
  b.m = make();
  addVars(c, b, c.rng.range(1, 4));
  b.m->update();
  const auto in = inside(c, b);
  const int m = c.rng.range(0, 4);
  int eqs = 0;
  for (int i = 0; i < m; ++i)
  {
    addCnt(c, b, in, eqs + 1 < static_cast<int>(b.live().size()));
    eqs += b.mc.back().type == EQ ? 1 : 0;
  }
  setObjective(c, b, c.rng.chance(0.25));
  c.trace << "vars=" << b.mv.size() << " cnts=" << m << " g=" << b.g.size() << " q=" << b.q.size();
  c.note(b.mv.size()); c.note(m); c.note(b.g.size()); c.note(b.q.size()); c.note(b.c0); c.note(in.begin()->second);
  if (c.rng.chance(0.5))
    b.m->update();
  solveAndCompare(c, b);
  checkVars(c, b);
}

inline void infeasibleProblem(mon::Case& c, const Factory& make, const Tol& tol)
{
  Beside b(tol);
  b.m = make();
  addVars(c, b, c.rng.range(1, 3), true);
  b.m->update();
  const auto in = inside(c, b);
  for (int i = c.rng.range(0, 2); i > 0; --i)
    addCnt(c, b, in, false);
  // a row which the box cannot satisfy, by a clear margin
  MC k;
  k.type = INEQ;
  double lo = 0;
  for (int i : b.live())
  {
    const auto& v = b.mv[static_cast<std::size_t>(i)];
    const double w = c.rng.nonzero(0.2, 2);
    k.terms.emplace_back(i, w);
    lo += std::min(w * v.lb, w * v.ub);
  }
  k.constant = -lo + c.rng.unif(0.5, 2);
  k.cnt = b.m->addIneqCnt(b.aff(k.terms, k.constant), "bad");
  b.mc.push_back(k);
  setObjective(c, b, c.rng.chance(0.5));
  c.trace << "vars=" << b.mv.size();
  c.note(b.mv.size()); c.note(k.constant);
  EXPECT(b.m->optimize() != CVX_SOLVED, "infeasible-solved", "an infeasible problem was reported as solved");
  c.event("infeasible");
  // the model stays usable: without the row it is solved
  b.m->removeCnt(b.mc.back().cnt);
  b.mc.back().live = false;
  solveAndCompare(c, b);
}

inline void history(mon::Case& c, const Factory& make, const Tol& tol)
{
  Beside b(tol);
  b.m = make();
  addVars(c, b, c.rng.range(1, 3));
  b.m->update();
  setObjective(c, b, false);
  const int steps = c.rng.range(4, 14);
  for (int s = 0; s < steps; ++s)
  {
    const int op = c.rng.range(0, 9);
    c.trace << ' ' << op;
    c.note(op);
    const auto lv = b.live();
    switch (op)
    {
      case 0:
        if (static_cast<int>(lv.size()) < b.tol.max_vars)
        {
          addVars(c, b, 1);
          b.m->update();
          if (!b.mv.back().bounded())
            setObjective(c, b, false);
        }
        break;
      case 1:
      {  // remove some variables which nothing uses
        VarVector rm;
        for (int i : lv)
          if (!b.used(i) && c.rng.chance(0.7) && rm.size() + 1 < lv.size())
          {
            rm.push_back(b.mv[static_cast<std::size_t>(i)].var);
            b.mv[static_cast<std::size_t>(i)].live = false;
          }
        if (rm.size() == 1 && c.rng.chance(0.5))
          b.m->removeVar(rm[0]);
        else
          b.m->removeVars(rm);
        if (!rm.empty())
          c.event("variables_removed");
        // adding before the update is part of the contract
        if (c.rng.chance(0.4) && static_cast<int>(lv.size()) < b.tol.max_vars)
          addVars(c, b, 1);
        b.m->update();
        if (!b.mv.back().bounded() && b.mv.back().live)
          setObjective(c, b, false);
        break;
      }
      case 2:
      case 3:
      {
        long live = std::count_if(b.mc.begin(), b.mc.end(), [](const MC& k) { return k.live; });
        if (live < 4)
        {
          // satisfied at the middle of every box, so that all rows are compatible
          std::map<int, double> mid;
          for (int i : lv)
            mid[i] = b.mv[static_cast<std::size_t>(i)].mid;
          long eqs = std::count_if(b.mc.begin(), b.mc.end(), [](const MC& k) { return k.live && k.type == EQ; });
          addCnt(c, b, mid, eqs == 0);
        }
        break;
      }
      case 4:
      {
        CntVector rm;
        for (auto& k : b.mc)
          if (k.live && c.rng.chance(0.5))
          {
            rm.push_back(k.cnt);
            k.live = false;
          }
        if (rm.size() == 1 && c.rng.chance(0.5))
          b.m->removeCnt(rm[0]);
        else
          b.m->removeCnts(rm);
        if (!rm.empty())
          c.event("rows_removed");
        break;
      }
      case 5:
      {  // tighten or widen the box around its middle, one or many at once
        VarVector vs;
        DblVec lo, hi;
        for (int i : lv)
          if (c.rng.chance(0.5))
          {
            auto& v = b.mv[static_cast<std::size_t>(i)];
            v.lb = v.mid - c.rng.unif(0.1, 2);
            v.ub = v.mid + c.rng.unif(0.1, 2);
            vs.push_back(v.var);
            lo.push_back(v.lb);
            hi.push_back(v.ub);
          }
        if (vs.size() == 1)
          b.m->setVarBounds(vs[0], lo[0], hi[0]);
        else
          b.m->setVarBounds(vs, lo, hi);
        break;
      }
      case 6:
        setObjective(c, b, true);
        break;
      case 7:
        setObjective(c, b, false);
        break;
      default:
        solveAndCompare(c, b);
        checkVars(c, b);
    }
  }
  solveAndCompare(c, b);
  checkVars(c, b);
  c.event("history");
}

// several models at once share the solver process
inline void twoModels(mon::Case& c, const Factory& make, const Tol& tol)
{
  Beside a(tol), b(tol);
  a.m = make();
  b.m = make();
  for (Beside* x : { &a, &b })
  {
    addVars(c, *x, c.rng.range(1, 3));
    x->m->update();
    const auto in = inside(c, *x);
    for (int i = c.rng.range(0, 2); i > 0; --i)
      addCnt(c, *x, in, false);
    setObjective(c, *x, false);
  }
  c.trace << a.mv.size() << " and " << b.mv.size();
  c.note(a.mv[0].lb);
  for (int i = 0; i < 4; ++i)
    solveAndCompare(c, c.rng.chance(0.5) ? a : b);
}

// sizes of real trajectory problems: a separable strictly convex problem with a known solution
inline void largeProblem(mon::Case& c, const Factory& make, int nmin, int nmax, double tol)
{
  auto m = make();
  const int n = c.rng.range(nmin, nmax);
  VarVector vs;
  QuadExpr obj;
  DblVec want;
  for (int i = 0; i < n; ++i)
  {
    const double t = c.rng.unif(-2, 2), lo = c.rng.unif(-1.5, -0.5), hi = c.rng.unif(0.5, 1.5);
    vs.push_back(m->addVar("x" + std::to_string(i), lo, hi));
    exprInc(obj, exprSquare(exprSub(AffExpr(vs.back()), t)));
    want.push_back(std::min(hi, std::max(lo, t)));
  }
  m->update();
  // rows that hold strictly everywhere in the box: many numbers to carry, no effect on the solution
  for (int i = 0; i + 6 < n; i += 2)
  {
    AffExpr e(-50.0);
    for (int j = 0; j < 6; ++j)
      exprInc(e, exprMult(AffExpr(vs[static_cast<std::size_t>(i + j)]), c.rng.unif(-2, 2)));
    m->addIneqCnt(e, "r");
  }
  m->setObjective(obj);
  c.trace << "n=" << n;
  c.note(n); c.note(want[0]);
  const CvxOptStatus st = m->optimize();
  EXPECT(st == CVX_SOLVED, "large", "a large feasible problem ended with status " << int(st));
  const DblVec x = m->getVarValues(vs);
  for (int i = 0; i < n; ++i)
    EXPECT(std::fabs(x[static_cast<std::size_t>(i)] - want[static_cast<std::size_t>(i)]) < tol, "large", "variable " << i << " is " << x[static_cast<std::size_t>(i)] << ", should be " << want[static_cast<std::size_t>(i)]);
  c.event("large");
}

}  // namespace mh
