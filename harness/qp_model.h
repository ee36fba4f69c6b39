// An exact, recording, fault-injecting solver model: what the optimizer asks of it is the specification's side of the log.
#pragma once
#include "sco_util.h"
#include <dense_qp.h>
#include <deque>
#include <mutex>
namespace scou
{
class QpModel : public sco::Model
{
public:
  struct Solve
  {
    sco::CvxOptStatus status;
    Eigen::VectorXd lb, ub;  // of all variables
    Eigen::VectorXd x;
    double objective{ 0 };
    bool injected{ false };
  };
  std::function<void(const Solve&)> on_solve;
  std::function<sco::CvxOptStatus()> inject;  // CVX_SOLVED: no injection
  std::string misuse;
  long gave_up{ 0 };

  sco::Var addVar(const std::string& name) override
  {
    const std::scoped_lock l(mx);
    vars.emplace_back(std::make_shared<sco::VarRep>(vars.size(), name, this));
    lb.push_back(-INFINITY);
    ub.push_back(INFINITY);
    return vars.back();
  }
  using sco::Model::addVar;
  sco::Cnt add(const sco::AffExpr& e, sco::ConstraintType t)
  {
    const std::scoped_lock l(mx);
    cnts.emplace_back(std::make_shared<sco::CntRep>(cnts.size(), this));
    exprs.push_back(e);
    types.push_back(t);
    return cnts.back();
  }
  sco::Cnt addEqCnt(const sco::AffExpr& e, const std::string&) override { return add(e, sco::EQ); }
  sco::Cnt addIneqCnt(const sco::AffExpr& e, const std::string&) override { return add(e, sco::INEQ); }
  sco::Cnt addIneqCnt(const sco::QuadExpr&, const std::string&) override { throw std::runtime_error("not implemented"); }
  void removeVars(const sco::VarVector& vs) override
  {
    const std::scoped_lock l(mx);
    for (const auto& v : vs)
    {
      if (v.var_rep == nullptr || v.var_rep->creator != this || v.var_rep->removed)
        misuse = "a variable was removed twice, or is not the model's";
      else
        v.var_rep->removed = true;
    }
  }
  void removeCnts(const sco::CntVector& ks) override
  {
    const std::scoped_lock l(mx);
    for (const auto& k : ks)
    {
      if (k.cnt_rep == nullptr || k.cnt_rep->creator != this || k.cnt_rep->removed)
        misuse = "a row was removed twice, or is not the model's";
      else
        k.cnt_rep->removed = true;
    }
  }
  void update() override
  {
    std::size_t n = 0;
    for (std::size_t o = 0; o < vars.size(); ++o)
      if (!vars[o].var_rep->removed)
      {
        vars[n] = vars[o];
        lb[n] = lb[o];
        ub[n] = ub[o];
        vars[n].var_rep->index = n;
        ++n;
      }
    vars.resize(n);
    lb.resize(n);
    ub.resize(n);
    n = 0;
    for (std::size_t o = 0; o < cnts.size(); ++o)
      if (!cnts[o].cnt_rep->removed)
      {
        cnts[n] = cnts[o];
        exprs[n] = exprs[o];
        types[n] = types[o];
        cnts[n].cnt_rep->index = n;
        ++n;
      }
    cnts.resize(n);
    exprs.resize(n);
    types.resize(n);
  }
  void setVarBounds(const sco::VarVector& vs, const sco::DblVec& lo, const sco::DblVec& hi) override
  {
    const std::scoped_lock l(mx);
    for (std::size_t i = 0; i < vs.size(); ++i)
    {
      lb[vs[i].var_rep->index] = lo[i];
      ub[vs[i].var_rep->index] = hi[i];
    }
  }
  using sco::Model::setVarBounds;
  sco::DblVec getVarValues(const sco::VarVector& vs) const override
  {
    sco::DblVec o;
    for (const auto& v : vs)
      o.push_back(sol(static_cast<Eigen::Index>(v.var_rep->index)));
    return o;
  }
  sco::CvxOptStatus optimize() override
  {
    update();
    const auto n = static_cast<Eigen::Index>(vars.size()), m = static_cast<Eigen::Index>(cnts.size());
    Solve s;
    s.lb = Eigen::Map<Eigen::VectorXd>(lb.data(), n);
    s.ub = Eigen::Map<Eigen::VectorXd>(ub.data(), n);
    s.status = inject ? inject() : sco::CVX_SOLVED;
    s.injected = s.status != sco::CVX_SOLVED;
    if (!s.injected)
    {
      for (const auto* e : { &objective.affexpr })
        for (const auto& v : e->vars)
          if (v.var_rep->removed)
            misuse = "a removed variable is used in the objective";
      const Poly p = toPoly(objective, static_cast<int>(n));
      Eigen::MatrixXd A = Eigen::MatrixXd::Zero(m + n, n);
      Eigen::VectorXd l(m + n), u(m + n);
      for (Eigen::Index i = 0; i < m; ++i)
      {
        const auto& e = exprs[static_cast<std::size_t>(i)];
        for (std::size_t k = 0; k < e.coeffs.size(); ++k)
        {
          if (e.vars[k].var_rep->removed)
            misuse = "a removed variable is used in a row";
          A(i, static_cast<Eigen::Index>(e.vars[k].var_rep->index)) += e.coeffs[k];
        }
        u(i) = -e.constant;
        l(i) = types[static_cast<std::size_t>(i)] == sco::EQ ? -e.constant : -INFINITY;
      }
      A.bottomRows(n).setIdentity();
      l.tail(n) = s.lb;
      u.tail(n) = s.ub;
      const auto r = denseqp::solve(2 * p.Q, p.g, A, l, u);
      s.status = r.status == denseqp::SOLVED ? sco::CVX_SOLVED : r.status == denseqp::INFEASIBLE ? sco::CVX_INFEASIBLE : sco::CVX_FAILED;
      if (r.status == denseqp::FAILED)
        ++gave_up;
      if (r.status == denseqp::SOLVED)
      {
        sol = r.x;
        s.objective = p.value(r.x);
      }
    }
    if (sol.size() != n)
      sol = Eigen::VectorXd::Zero(n);
    s.x = sol;
    if (on_solve)
      on_solve(s);
    return s.status;
  }
  void setObjective(const sco::AffExpr& e) override { objective = sco::QuadExpr(e); }
  void setObjective(const sco::QuadExpr& e) override { objective = e; }
  void writeToFile(const std::string&) const override {}
  sco::VarVector getVars() const override { return vars; }
  std::size_t rows() const { return cnts.size(); }

private:
  std::mutex mx;
  sco::VarVector vars;
  sco::DblVec lb, ub;
  sco::CntVector cnts;
  std::vector<sco::AffExpr> exprs;
  std::vector<sco::ConstraintType> types;
  sco::QuadExpr objective;
  Eigen::VectorXd sol;
};
}  // namespace scou
