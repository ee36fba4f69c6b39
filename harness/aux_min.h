// The value of a convexified cost: its minimum over the auxiliary variables it brought along.
#pragma once
#include "sco_util.h"
#include <trajopt_sco/modeling.hpp>
namespace scou
{
using namespace sco;
/// minimum of the convex objective over the auxiliary variables at fixed x; NaN when there is no feasible choice
inline double minOverAux(mon::Case& c, RefModel& m, const ConvexObjective& o, const std::vector<double>& x, std::size_t nproblem)
{
  // quadratic terms never involve auxiliary variables here; split the objective
  for (std::size_t i = 0; i < o.quad_.coeffs.size(); ++i)
    EXPECT(o.quad_.vars1[i].var_rep->index < nproblem && o.quad_.vars2[i].var_rep->index < nproblem,
           "aux-in-quadratic",
           "an auxiliary variable appears quadratically");
  std::vector<int> comp(m.vars.size(), -1);  // union by constraint
  std::vector<std::size_t> parent(m.vars.size());
  for (std::size_t i = 0; i < parent.size(); ++i)
    parent[i] = i;
  std::function<std::size_t(std::size_t)> find = [&](std::size_t a) { return parent[a] == a ? a : parent[a] = find(parent[a]); };
  for (const auto& k : m.cnts)
  {
    if (k.removed)
      continue;
    std::size_t first = SIZE_MAX;
    for (const auto& v : k.expr.affexpr.vars)
      if (v.var_rep->index >= nproblem)
      {
        if (first == SIZE_MAX)
          first = v.var_rep->index;
        else
          parent[find(v.var_rep->index)] = find(first);
      }
  }
  std::map<std::size_t, std::vector<std::size_t>> groups;
  for (std::size_t i = nproblem; i < m.vars.size(); ++i)
    if (!m.vars[i].removed)
      groups[find(i)].push_back(i);
  std::vector<double> xx = x;
  xx.resize(m.vars.size(), 0.0);
  double total = o.quad_.value(xx);  // auxiliary variables at zero
  std::vector<double> objc(m.vars.size(), 0.0);
  for (std::size_t i = 0; i < o.quad_.affexpr.coeffs.size(); ++i)
    objc[o.quad_.affexpr.vars[i].var_rep->index] += o.quad_.affexpr.coeffs[i];
  for (auto& g : groups)
  {
    const auto& ids = g.second;
    EXPECT(ids.size() <= 3, "aux-group", "unexpectedly large group of auxiliary variables: " << ids.size());
    TinyLP lp;
    lp.c = Eigen::VectorXd(static_cast<Eigen::Index>(ids.size()));
    std::map<std::size_t, Eigen::Index> pos;
    for (std::size_t i = 0; i < ids.size(); ++i)
    {
      pos[ids[i]] = static_cast<Eigen::Index>(i);
      lp.c(static_cast<Eigen::Index>(i)) = objc[ids[i]];
      const auto& v = m.vars[ids[i]];
      Eigen::VectorXd e = Eigen::VectorXd::Zero(lp.c.size());
      e(static_cast<Eigen::Index>(i)) = 1;
      if (std::isfinite(v.ub)) { lp.ineq_a.push_back(e); lp.ineq_b.push_back(v.ub); }
      if (std::isfinite(v.lb)) { lp.ineq_a.emplace_back(-e); lp.ineq_b.push_back(-v.lb); }
    }
    for (const auto& k : m.cnts)
    {
      if (k.removed)
        continue;
      bool mine = false;
      Eigen::VectorXd a = Eigen::VectorXd::Zero(lp.c.size());
      double rest = k.expr.affexpr.constant;
      for (std::size_t i = 0; i < k.expr.affexpr.coeffs.size(); ++i)
      {
        const auto id = k.expr.affexpr.vars[i].var_rep->index;
        if (id < nproblem)
          rest += k.expr.affexpr.coeffs[i] * x[id];
        else if (pos.count(id))
        {
          mine = true;
          a(pos[id]) += k.expr.affexpr.coeffs[i];
        }
      }
      if (!mine)
        continue;
      if (k.type == EQ) { lp.eq_a.push_back(a); lp.eq_b.push_back(-rest); }
      else { lp.ineq_a.push_back(a); lp.ineq_b.push_back(-rest); }
    }
    auto r = lp.solve();
    if (!r.first)
      return NAN;
    total += r.second;
    c.event("aux_minimised");
  }
  return total;
}
}  // namespace scou
