// Shared helpers for the sco harnesses: polynomial oracle, a reference Model, tiny LP by vertex enumeration.
#pragma once
#include "mon.h"
#include <Eigen/Dense>
#include <tuple>
#include <trajopt_sco/expr_ops.hpp>
#include <trajopt_sco/expr_op_overloads.hpp>
#include <trajopt_sco/solver_interface.hpp>

namespace scou
{
/// oracle polynomial of degree <= 2 over n variables: c + g.x + x'Qx (Q kept symmetric)
struct Poly
{
  double c{ 0 };
  Eigen::VectorXd g;
  Eigen::MatrixXd Q;
  Poly() = default;
  explicit Poly(int n) : g(Eigen::VectorXd::Zero(n)), Q(Eigen::MatrixXd::Zero(n, n)) {}
  double value(const Eigen::VectorXd& x) const { return c + g.dot(x) + x.dot(Q * x); }
};
inline Poly operator+(const Poly& a, const Poly& b)
{
  Poly r = a;
  r.c += b.c;
  r.g += b.g;
  r.Q += b.Q;
  return r;
}
inline Poly operator*(double s, const Poly& a)
{
  Poly r = a;
  r.c *= s;
  r.g *= s;
  r.Q *= s;
  return r;
}
/// product of two affine polynomials
inline Poly mulAff(const Poly& a, const Poly& b)
{
  Poly r(static_cast<int>(a.g.size()));
  r.c = a.c * b.c;
  r.g = a.c * b.g + b.c * a.g;
  r.Q = 0.5 * (a.g * b.g.transpose() + b.g * a.g.transpose());
  return r;
}
inline Poly toPoly(const sco::AffExpr& e, int n)
{
  Poly p(n);
  p.c = e.constant;
  for (std::size_t i = 0; i < e.coeffs.size(); ++i)
    p.g(static_cast<Eigen::Index>(e.vars[i].var_rep->index)) += e.coeffs[i];
  return p;
}
inline Poly toPoly(const sco::QuadExpr& e, int n)
{
  Poly p = toPoly(e.affexpr, n);
  for (std::size_t i = 0; i < e.coeffs.size(); ++i)
  {
    const auto a = static_cast<Eigen::Index>(e.vars1[i].var_rep->index);
    const auto b = static_cast<Eigen::Index>(e.vars2[i].var_rep->index);
    p.Q(a, b) += 0.5 * e.coeffs[i];
    p.Q(b, a) += 0.5 * e.coeffs[i];
  }
  return p;
}
inline bool near(const Poly& a, const Poly& b, double scale, double tol = 1e-9)
{
  const double t = tol * std::max(1.0, scale);
  return std::fabs(a.c - b.c) <= t && (a.g - b.g).cwiseAbs().sum() <= t * 4 && (a.Q - b.Q).cwiseAbs().sum() <= t * 8;
}
inline std::string str(const Poly& p)
{
  std::ostringstream o;
  o.precision(12);
  o << "{c=" << p.c << " g=[" << p.g.transpose() << "] Q=[";
  for (Eigen::Index i = 0; i < p.Q.rows(); ++i)
    o << p.Q.row(i) << ";";
  o << "]}";
  return o.str();
}
/// reads "a + b v0 + v1 + [ c v0 ^ 2 + v0 * v1 ] /2" (the usual solver text format) back; throws std::runtime_error
inline Poly readText(std::string t, int n)
{
  Poly p(n);
  auto trim = [](std::string s) {
    while (!s.empty() && std::isspace(static_cast<unsigned char>(s.back())))
      s.pop_back();
    std::size_t i = 0;
    while (i < s.size() && std::isspace(static_cast<unsigned char>(s[i])))
      ++i;
    return s.substr(i);
  };
  auto split = [&](const std::string& s) {
    std::vector<std::string> out;
    std::size_t a = 0;
    for (;;)
    {
      const std::size_t b = s.find(" + ", a);
      const std::string w = trim(s.substr(a, b == std::string::npos ? b : b - a));
      if (!w.empty())
        out.push_back(w);
      if (b == std::string::npos)
        return out;
      a = b + 3;
    }
  };
  auto var = [&](const std::string& w) {
    std::size_t e = 0;
    if (w.size() < 2 || w[0] != 'v')
      throw std::runtime_error("not a variable: '" + w + "'");
    const int i = std::stoi(w.substr(1), &e);
    if (e + 1 != w.size() || i < 0 || i >= n)
      throw std::runtime_error("not a variable: '" + w + "'");
    return static_cast<Eigen::Index>(i);
  };
  auto num = [](const std::string& w) {
    std::size_t e = 0;
    const double d = std::stod(w, &e);
    if (e != w.size())
      throw std::runtime_error("not a number: '" + w + "'");
    return d;
  };
  std::string quad;
  const std::size_t q = t.find('[');
  double div = 1;
  if (q != std::string::npos)
  {
    const std::size_t qe = t.find(']');
    if (qe == std::string::npos)
      throw std::runtime_error("no ]");
    quad = t.substr(q + 1, qe - q - 1);
    const std::string rest = trim(t.substr(qe + 1));
    if (rest == "/2" || rest == "/ 2")
      div = 2;
    else if (!rest.empty())
      throw std::runtime_error("after ]: '" + rest + "'");
    t = t.substr(0, q);
  }
  for (const std::string& w : split(" " + t + " "))
  {
    const std::size_t sp = w.find_first_of(" *");
    if (sp != std::string::npos)
      p.g(var(trim(w.substr(w.find_last_of(" *") + 1)))) += num(w.substr(0, sp));
    else if (w[0] == 'v')
      p.g(var(w)) += 1;
    else
      p.c += num(w);
  }
  for (const std::string& w : split(quad))
  {
    std::istringstream in(w);
    std::vector<std::string> k;
    for (std::string x; in >> x;)
      k.push_back(x);
    double f = 1;
    if (k.size() == 4)
    {
      f = num(k[0]);
      k.erase(k.begin());
    }
    if (k.size() != 3 || (k[1] != "^" && k[1] != "*") || (k[1] == "^" && k[2] != "2"))
      throw std::runtime_error("quadratic term '" + w + "'");
    const Eigen::Index a = var(k[0]), b = k[1] == "^" ? a : var(k[2]);
    p.Q(a, b) += 0.5 * f / div;
    p.Q(b, a) += 0.5 * f / div;
  }
  return p;
}
inline sco::VarVector makeVars(int n, void* owner = nullptr)
{
  sco::VarVector v;
  for (int i = 0; i < n; ++i)
    v.emplace_back(std::make_shared<sco::VarRep>(static_cast<std::size_t>(i), "v" + std::to_string(i), owner));
  return v;
}
inline sco::AffExpr randAff(mon::Rng& r, const sco::VarVector& vars, int maxterms = 6)
{
  sco::AffExpr e;
  e.constant = r.num();
  const int k = vars.empty() ? 0 : r.range(0, maxterms);
  for (int i = 0; i < k; ++i)
  {
    e.vars.push_back(r.pick(vars));  // repeats are legal
    e.coeffs.push_back(r.num());
  }
  return e;
}
inline sco::QuadExpr randQuad(mon::Rng& r, const sco::VarVector& vars, int maxterms = 8)
{
  sco::QuadExpr q;
  q.affexpr = randAff(r, vars, 5);
  const int k = vars.empty() ? 0 : r.range(0, maxterms);
  for (int i = 0; i < k; ++i)
  {
    q.vars1.push_back(r.pick(vars));
    q.vars2.push_back(r.pick(vars));
    q.coeffs.push_back(r.num());
  }
  return q;
}
inline double mag(const Poly& p) { return std::fabs(p.c) + p.g.cwiseAbs().sum() + p.Q.cwiseAbs().sum(); }

/// LP over k<=3 variables: minimise c.y s.t. A y <= b, E y = d, lo <= y <= hi, by enumerating vertices.
/// Returns {feasible, optimum}.  Unbounded optima are reported as -inf only along directions with cost (callers avoid it).
struct TinyLP
{
  std::vector<Eigen::VectorXd> ineq_a;
  std::vector<double> ineq_b;
  std::vector<Eigen::VectorXd> eq_a;
  std::vector<double> eq_b;
  Eigen::VectorXd c;
  std::pair<bool, double> solve() const
  {
    const auto k = static_cast<int>(c.size());
    // all planes: equalities are mandatory members
    std::vector<Eigen::VectorXd> P = eq_a;
    std::vector<double> pb = eq_b;
    for (std::size_t i = 0; i < ineq_a.size(); ++i)
    {
      P.push_back(ineq_a[i]);
      pb.push_back(ineq_b[i]);
    }
    double best = std::numeric_limits<double>::infinity();
    bool ok = false;
    const int m = static_cast<int>(P.size());
    std::vector<int> pick(static_cast<std::size_t>(k));
    std::function<void(int, int)> rec = [&](int d, int from) {
      if (d == k)
      {
        Eigen::MatrixXd M(k, k);
        Eigen::VectorXd r(k);
        for (int i = 0; i < k; ++i)
        {
          M.row(i) = P[static_cast<std::size_t>(pick[static_cast<std::size_t>(i)])].transpose();
          r(i) = pb[static_cast<std::size_t>(pick[static_cast<std::size_t>(i)])];
        }
        if (std::fabs(M.determinant()) < 1e-12)
          return;
        const Eigen::VectorXd y = M.fullPivLu().solve(r);
        const double s = 1e-9 * (1.0 + y.cwiseAbs().maxCoeff());
        for (std::size_t i = 0; i < eq_a.size(); ++i)
          if (std::fabs(eq_a[i].dot(y) - eq_b[i]) > s * (1 + eq_a[i].cwiseAbs().sum()))
            return;
        for (std::size_t i = 0; i < ineq_a.size(); ++i)
          if (ineq_a[i].dot(y) - ineq_b[i] > s * (1 + ineq_a[i].cwiseAbs().sum()))
            return;
        ok = true;
        best = std::min(best, c.dot(y));
        return;
      }
      for (int i = from; i < m; ++i)
      {
        pick[static_cast<std::size_t>(d)] = i;
        rec(d + 1, i + 1);
      }
    };
    rec(0, 0);
    return { ok, best };
  }
};

/// Strictly small convex QP: minimise p(x) over {E x + e = 0, A x + a <= 0} by enumerating active sets (n <= 6).
/// Exact up to rounding: an optimum always lies on a face with a non-singular KKT system.
struct TinyQP
{
  Poly obj;
  std::vector<Eigen::VectorXd> eq_a, in_a;
  std::vector<double> eq_c, in_c;  // a.x + c (==|<=) 0
  explicit TinyQP(int n) : obj(n) {}
  double violation(const Eigen::VectorXd& x) const
  {
    double v = 0;
    for (std::size_t i = 0; i < eq_a.size(); ++i)
      v = std::max(v, std::fabs(eq_a[i].dot(x) + eq_c[i]));
    for (std::size_t i = 0; i < in_a.size(); ++i)
      v = std::max(v, in_a[i].dot(x) + in_c[i]);
    return v;
  }
  /// {found, optimum, argmin}
  std::tuple<bool, double, Eigen::VectorXd> solve() const
  {
    const auto n = static_cast<int>(obj.g.size());
    const auto ne = static_cast<int>(eq_a.size()), ni = static_cast<int>(in_a.size());
    double best = std::numeric_limits<double>::infinity();
    Eigen::VectorXd arg = Eigen::VectorXd::Zero(n);
    bool ok = false;
    std::vector<int> act;
    std::function<void(int)> rec = [&](int from) {
      const int k = ne + static_cast<int>(act.size());
      if (k <= n + ne)
      {
        Eigen::MatrixXd K = Eigen::MatrixXd::Zero(n + k, n + k);
        Eigen::VectorXd r = Eigen::VectorXd::Zero(n + k);
        K.topLeftCorner(n, n) = 2 * obj.Q;
        r.head(n) = -obj.g;
        for (int i = 0; i < k; ++i)
        {
          const Eigen::VectorXd& a = i < ne ? eq_a[static_cast<std::size_t>(i)] : in_a[static_cast<std::size_t>(act[static_cast<std::size_t>(i - ne)])];
          const double cc = i < ne ? eq_c[static_cast<std::size_t>(i)] : in_c[static_cast<std::size_t>(act[static_cast<std::size_t>(i - ne)])];
          K.block(0, n + i, n, 1) = a;
          K.block(n + i, 0, 1, n) = a.transpose();
          r(n + i) = -cc;
        }
        // redundant equalities make the KKT system singular: a minimum-norm solution is as good if it solves it
        Eigen::CompleteOrthogonalDecomposition<Eigen::MatrixXd> d(K);
        const Eigen::VectorXd y = d.solve(r);
        if ((K * y - r).cwiseAbs().maxCoeff() < 1e-8 * (1 + r.cwiseAbs().maxCoeff()))
        {
          const Eigen::VectorXd x = y.head(n);
          if (violation(x) < 1e-7 * (1 + x.cwiseAbs().maxCoeff()))
          {
            ok = true;
            const double v = obj.value(x);
            if (v < best)
            {
              best = v;
              arg = x;
            }
          }
        }
      }
      if (static_cast<int>(act.size()) < n)
        for (int i = from; i < ni; ++i)
        {
          act.push_back(i);
          rec(i + 1);
          act.pop_back();
        }
    };
    rec(0);
    return std::make_tuple(ok, best, arg);
  }
};

/// A reference Model: keeps everything it is told, plainly; used to look at what convex terms add and remove.
class RefModel : public sco::Model
{
public:
  struct V
  {
    sco::Var var;
    double lb{ -INFINITY }, ub{ INFINITY };
    bool removed{ false };
  };
  struct C
  {
    sco::Cnt cnt;
    sco::QuadExpr expr;
    sco::ConstraintType type;
    bool removed{ false };
  };
  std::vector<V> vars;
  std::vector<C> cnts;
  sco::QuadExpr objective;
  std::string misuse;  // first misuse seen (double removal, removal of a foreign item)

  sco::Var addVar(const std::string& name) override
  {
    V v;
    v.var = sco::Var(std::make_shared<sco::VarRep>(vars.size(), name, this));
    vars.push_back(v);
    return v.var;
  }
  using sco::Model::addVar;
  sco::Cnt add(const sco::QuadExpr& e, sco::ConstraintType t)
  {
    C k;
    k.cnt = sco::Cnt(std::make_shared<sco::CntRep>(cnts.size(), this));
    k.cnt.cnt_rep->type = t;
    k.expr = e;
    k.type = t;
    cnts.push_back(k);
    return k.cnt;
  }
  sco::Cnt addEqCnt(const sco::AffExpr& e, const std::string&) override { return add(sco::QuadExpr(e), sco::EQ); }
  sco::Cnt addIneqCnt(const sco::AffExpr& e, const std::string&) override { return add(sco::QuadExpr(e), sco::INEQ); }
  sco::Cnt addIneqCnt(const sco::QuadExpr& e, const std::string&) override { return add(e, sco::INEQ); }
  void removeVars(const sco::VarVector& vs) override
  {
    for (const auto& v : vs)
    {
      if (v.var_rep == nullptr || v.var_rep->creator != this || v.var_rep->index >= vars.size())
        misuse = "foreign variable removed";
      else if (vars[v.var_rep->index].removed)
        misuse = "variable removed twice";
      else
        vars[v.var_rep->index].removed = v.var_rep->removed = true;
    }
  }
  void removeCnts(const sco::CntVector& cs) override
  {
    for (const auto& k : cs)
    {
      if (k.cnt_rep == nullptr || k.cnt_rep->creator != this || k.cnt_rep->index >= cnts.size())
        misuse = "foreign constraint removed";
      else if (cnts[k.cnt_rep->index].removed)
        misuse = "constraint removed twice";
      else
        cnts[k.cnt_rep->index].removed = k.cnt_rep->removed = true;
    }
  }
  void update() override {}
  void setVarBounds(const sco::VarVector& vs, const sco::DblVec& lo, const sco::DblVec& hi) override
  {
    for (std::size_t i = 0; i < vs.size(); ++i)
    {
      vars[vs[i].var_rep->index].lb = lo[i];
      vars[vs[i].var_rep->index].ub = hi[i];
    }
  }
  using sco::Model::setVarBounds;
  sco::DblVec getVarValues(const sco::VarVector& vs) const override { return sco::DblVec(vs.size(), 0.0); }
  sco::CvxOptStatus optimize() override { return sco::CVX_FAILED; }
  void setObjective(const sco::AffExpr& e) override { objective = sco::QuadExpr(e); }
  void setObjective(const sco::QuadExpr& e) override { objective = e; }
  void writeToFile(const std::string&) const override {}
  sco::VarVector getVars() const override
  {
    sco::VarVector o;
    for (const auto& v : vars)
      if (!v.removed)
        o.push_back(v.var);
    return o;
  }
  long liveVars() const
  {
    return std::count_if(vars.begin(), vars.end(), [](const V& v) { return !v.removed; });
  }
  long liveCnts() const
  {
    return std::count_if(cnts.begin(), cnts.end(), [](const C& k) { return !k.removed; });
  }
};
}  // namespace scou
