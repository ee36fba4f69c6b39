// C02: expression algebra.  Random programs of expression operations run beside an exact polynomial oracle.
#include "sco_util.h"
#include <trajopt_sco/expr_vec_ops.hpp>
#include <trajopt_sco/modeling_utils.hpp>
using namespace sco;
using namespace scou;

namespace
{
struct Slot
{
  bool quad{ false };
  AffExpr a;
  QuadExpr q;
  Poly p;
};

void checkSlot(mon::Case& c, const Slot& s, int n, const char* op)
{
  const Poly got = s.quad ? toPoly(s.q, n) : toPoly(s.a, n);
  const double sc = mag(s.p);
  EXPECT(near(got, s.p, sc), std::string("value:") + op, op << " gives " << str(got) << ", oracle " << str(s.p));
  if (s.quad)
    EXPECT(s.q.coeffs.size() == s.q.vars1.size() && s.q.coeffs.size() == s.q.vars2.size() &&
               s.q.affexpr.coeffs.size() == s.q.affexpr.vars.size() && s.q.size() == s.q.coeffs.size(),
           std::string("shape:") + op,
           op << " left coefficient and variable lists of different length");
  else
    EXPECT(s.a.coeffs.size() == s.a.vars.size() && s.a.size() == s.a.coeffs.size(),
           std::string("shape:") + op,
           op << " left coefficient and variable lists of different length");
  Eigen::VectorXd x(n);
  for (int t = 0; t < 2; ++t)
  {
    for (int i = 0; i < n; ++i)
      x(i) = c.rng.num(2.0);
    DblVec xv(x.data(), x.data() + n);
    const double v = s.quad ? s.q.value(xv) : s.a.value(xv);
    const double v2 = s.quad ? s.q.value(xv.data()) : s.a.value(xv.data());
    const double want = s.p.value(x);
    const double xm = 1.0 + x.cwiseAbs().maxCoeff();
    EXPECT(std::fabs(v - want) <= 1e-8 * (1.0 + sc) * xm * xm,
           std::string("eval:") + op,
           op << " evaluates to " << v << ", oracle " << want);
    EXPECT(v == v2, std::string("eval-overloads:") + op, "value(vector) and value(pointer) differ");
    c.event("evaluations");
  }
}

bool same(const AffExpr& a, const AffExpr& b)
{
  if (a.constant != b.constant || a.coeffs != b.coeffs || a.vars.size() != b.vars.size())
    return false;
  for (std::size_t i = 0; i < a.vars.size(); ++i)
    if (a.vars[i].var_rep != b.vars[i].var_rep)
      return false;
  return true;
}
bool same(const QuadExpr& a, const QuadExpr& b)
{
  if (!same(a.affexpr, b.affexpr) || a.coeffs != b.coeffs || a.vars1.size() != b.vars1.size() ||
      a.vars2.size() != b.vars2.size())
    return false;
  for (std::size_t i = 0; i < a.vars1.size(); ++i)
    if (a.vars1[i].var_rep != b.vars1[i].var_rep || a.vars2[i].var_rep != b.vars2[i].var_rep)
      return false;
  return true;
}
Poly varPoly(const Var& v, int n)
{
  Poly p(n);
  p.g(static_cast<Eigen::Index>(v.var_rep->index)) = 1;
  return p;
}
Poly constPoly(double d, int n)
{
  Poly p(n);
  p.c = d;
  return p;
}
}  // namespace

FAMILY(programs, 16000, 600000)
{
  const int n = c.rng.range(1, 6);
  const VarVector vars = makeVars(n);
  std::vector<Slot> slots;
  auto pushA = [&](AffExpr a, Poly p, const char* op) {
    Slot s;
    s.a = std::move(a);
    s.p = std::move(p);
    checkSlot(c, s, n, op);
    slots.push_back(std::move(s));
  };
  auto pushQ = [&](QuadExpr q, Poly p, const char* op) {
    Slot s;
    s.quad = true;
    s.q = std::move(q);
    s.p = std::move(p);
    checkSlot(c, s, n, op);
    slots.push_back(std::move(s));
  };
  {
    const Var v = c.rng.pick(vars);
    const double d = c.rng.num();
    pushA(AffExpr(v), varPoly(v, n), "AffExpr(var)");
    pushA(AffExpr(d), constPoly(d, n), "AffExpr(double)");
    pushQ(QuadExpr(v), varPoly(v, n), "QuadExpr(var)");
    pushQ(QuadExpr(d), constPoly(d, n), "QuadExpr(double)");
  }
  for (int i = 0; i < 3; ++i)
  {
    AffExpr a = randAff(c.rng, vars);
    Poly pa = toPoly(a, n);
    pushA(a, pa, "random");
    pushQ(QuadExpr(a), pa, "QuadExpr(aff)");
    QuadExpr q = randQuad(c.rng, vars);
    Poly pq = toPoly(q, n);
    pushQ(q, pq, "random");
  }
  auto pickA = [&]() -> Slot& {
    for (;;)
    {
      Slot& s = slots[static_cast<std::size_t>(c.rng.range(0, static_cast<int>(slots.size()) - 1))];
      if (!s.quad)
        return s;
    }
  };
  auto pickQ = [&]() -> Slot& {
    for (;;)
    {
      Slot& s = slots[static_cast<std::size_t>(c.rng.range(0, static_cast<int>(slots.size()) - 1))];
      if (s.quad)
        return s;
    }
  };
  const int nops = c.rng.range(3, 14);
  c.trace << "n=" << n << " ops:";
  for (int k = 0; k < nops; ++k)
  {
    // copies of the operands: the sources must come out unchanged
    const Slot a1 = pickA();
    const Slot a2 = pickA();
    const Slot q1 = pickQ();
    const Slot q2 = pickQ();
    if (a1.a.size() > 60 || a2.a.size() > 60 || q1.q.size() > 200 || q2.q.size() > 200 || mag(a1.p) > 1e8 || mag(a2.p) > 1e8 ||
        mag(q1.p) > 1e8 || mag(q2.p) > 1e8)
      continue;
    AffExpr A1 = a1.a, A2 = a2.a;
    QuadExpr Q1 = q1.q, Q2 = q2.q;
    const Var v = c.rng.pick(vars);
    const Var w = c.rng.pick(vars);
    const Poly pv = varPoly(v, n), pw = varPoly(w, n);
    const double d = c.rng.num();
    const Poly pd = constPoly(d, n);
    const int op = c.rng.range(0, 57);
    c.trace << ' ' << op;
    c.note(op);
    c.event("operations");
    switch (op)
    {
      // in place
      case 0: exprScale(A1, d); pushA(A1, d * a1.p, "exprScale(aff)"); A1 = a1.a; break;
      case 1: exprScale(Q1, d); pushQ(Q1, d * q1.p, "exprScale(quad)"); Q1 = q1.q; break;
      case 2: exprInc(A1, d); pushA(A1, a1.p + pd, "exprInc(aff,double)"); A1 = a1.a; break;
      case 3: exprInc(A1, A2); pushA(A1, a1.p + a2.p, "exprInc(aff,aff)"); A1 = a1.a; break;
      case 4: { AffExpr t = A2; exprInc(A1, std::move(t)); pushA(A1, a1.p + a2.p, "exprInc(aff,aff&&)"); A1 = a1.a; break; }
      case 5: exprInc(A1, v); pushA(A1, a1.p + pv, "exprInc(aff,var)"); A1 = a1.a; break;
      case 6: exprInc(Q1, d); pushQ(Q1, q1.p + pd, "exprInc(quad,double)"); Q1 = q1.q; break;
      case 7: exprInc(Q1, v); pushQ(Q1, q1.p + pv, "exprInc(quad,var)"); Q1 = q1.q; break;
      case 8: exprInc(Q1, A1); pushQ(Q1, q1.p + a1.p, "exprInc(quad,aff)"); Q1 = q1.q; break;
      case 9: { AffExpr t = A1; exprInc(Q1, std::move(t)); pushQ(Q1, q1.p + a1.p, "exprInc(quad,aff&&)"); Q1 = q1.q; break; }
      case 10: exprInc(Q1, Q2); pushQ(Q1, q1.p + q2.p, "exprInc(quad,quad)"); Q1 = q1.q; break;
      case 11: { QuadExpr t = Q2; exprInc(Q1, std::move(t)); pushQ(Q1, q1.p + q2.p, "exprInc(quad,quad&&)"); Q1 = q1.q; break; }
      case 12: exprDec(A1, d); pushA(A1, a1.p + (-1.0 * pd), "exprDec(aff,double)"); A1 = a1.a; break;
      case 13: exprDec(A1, A2); pushA(A1, a1.p + (-1.0 * a2.p), "exprDec(aff,aff)"); A1 = a1.a; break;
      case 14: exprDec(A1, v); pushA(A1, a1.p + (-1.0 * pv), "exprDec(aff,var)"); A1 = a1.a; break;
      case 15: exprDec(Q1, d); pushQ(Q1, q1.p + (-1.0 * pd), "exprDec(quad,double)"); Q1 = q1.q; break;
      case 16: exprDec(Q1, v); pushQ(Q1, q1.p + (-1.0 * pv), "exprDec(quad,var)"); Q1 = q1.q; break;
      case 17: exprDec(Q1, A1); pushQ(Q1, q1.p + (-1.0 * a1.p), "exprDec(quad,aff)"); Q1 = q1.q; break;
      case 18: { AffExpr t = A1; exprDec(Q1, std::move(t)); pushQ(Q1, q1.p + (-1.0 * a1.p), "exprDec(quad,aff&&)"); Q1 = q1.q; break; }
      case 19: exprDec(Q1, Q2); pushQ(Q1, q1.p + (-1.0 * q2.p), "exprDec(quad,quad)"); Q1 = q1.q; break;
      case 20: exprDec(A1, AffExpr(A1)); pushA(A1, constPoly(0, n), "exprDec(self)"); A1 = a1.a; break;
      // out of place
      case 21: pushA(exprMult(v, d), d * pv, "exprMult(var,double)"); break;
      case 22: pushA(exprMult(A1, d), d * a1.p, "exprMult(aff,double)"); break;
      case 23: pushQ(exprMult(Q1, d), d * q1.p, "exprMult(quad,double)"); break;
      case 24: pushA(exprAdd(A1, d), a1.p + pd, "exprAdd(aff,double)"); break;
      case 25: pushA(exprAdd(A1, v), a1.p + pv, "exprAdd(aff,var)"); break;
      case 26: pushA(exprAdd(A1, A2), a1.p + a2.p, "exprAdd(aff,aff)"); break;
      case 27: pushQ(exprAdd(Q1, d), q1.p + pd, "exprAdd(quad,double)"); break;
      case 28: pushQ(exprAdd(Q1, v), q1.p + pv, "exprAdd(quad,var)"); break;
      case 29: pushQ(exprAdd(Q1, A1), q1.p + a1.p, "exprAdd(quad,aff)"); break;
      case 30: pushQ(exprAdd(Q1, Q2), q1.p + q2.p, "exprAdd(quad,quad)"); break;
      case 31: pushA(exprSub(A1, d), a1.p + (-1.0 * pd), "exprSub(aff,double)"); break;
      case 32: pushA(exprSub(A1, v), a1.p + (-1.0 * pv), "exprSub(aff,var)"); break;
      case 33: pushA(exprSub(A1, A2), a1.p + (-1.0 * a2.p), "exprSub(aff,aff)"); break;
      case 34: pushQ(exprSub(Q1, d), q1.p + (-1.0 * pd), "exprSub(quad,double)"); break;
      case 35: pushQ(exprSub(Q1, v), q1.p + (-1.0 * pv), "exprSub(quad,var)"); break;
      case 36: pushQ(exprSub(Q1, A1), q1.p + (-1.0 * a1.p), "exprSub(quad,aff)"); break;
      case 37: pushQ(exprSub(Q1, Q2), q1.p + (-1.0 * q2.p), "exprSub(quad,quad)"); break;
      case 38:
      case 39: pushQ(exprMult(A1, A2), mulAff(a1.p, a2.p), "exprMult(aff,aff)"); break;
      case 40: pushQ(exprMult(A1, A1), mulAff(a1.p, a1.p), "exprMult(self)"); break;
      case 41: pushQ(exprSquare(v), mulAff(pv, pv), "exprSquare(var)"); break;
      case 42:
      case 43: pushQ(exprSquare(A1), mulAff(a1.p, a1.p), "exprSquare(aff)"); break;
      case 44:
      {
        const AffExpr r = cleanupAff(A1);
        // only coefficients of at most 1e-7 may go
        Poly p = toPoly(r, n);
        const double slack = 1e-7 * static_cast<double>(A1.size()) + 1e-12;
        EXPECT((p.g - a1.p.g).cwiseAbs().maxCoeff() <= slack + 1e-9 * mag(a1.p) && p.c == A1.constant && r.size() <= A1.size(),
               "value:cleanupAff",
               "cleanupAff changed " << str(a1.p) << " to " << str(p));
        for (double q : r.coeffs)
          EXPECT(q != 0.0, "cleanup-kept-zero", "cleanupAff kept a zero coefficient");
        break;
      }
      case 45:
      {
        VarVector vv;
        Eigen::VectorXd xx(c.rng.range(0, n));
        Poly p(n);
        for (Eigen::Index i = 0; i < xx.size(); ++i)
        {
          xx(i) = c.rng.num();
          vv.push_back(c.rng.pick(vars));
          p = p + xx(i) * varPoly(vv.back(), n);
        }
        pushA(varDot(xx, vv), p, "varDot");
        break;
      }
      // operators
      case 46: pushA(v + d, pv + pd, "var+double"); pushA(v - d, pv + (-1.0 * pd), "var-double"); break;
      case 47: pushA(v + w, pv + pw, "var+var"); pushA(v - w, pv + (-1.0 * pw), "var-var"); break;
      case 48: pushA(v + A1, pv + a1.p, "var+aff"); pushA(v - A1, pv + (-1.0 * a1.p), "var-aff"); break;
      case 49: pushA(A1 + v, pv + a1.p, "aff+var"); pushA(A1 - v, a1.p + (-1.0 * pv), "aff-var"); break;
      case 50: pushA(A1 + A2, a2.p + a1.p, "aff+aff"); pushA(A1 - A2, a1.p + (-1.0 * a2.p), "aff-aff"); break;
      case 51: pushQ(Q1 + A1, q1.p + a1.p, "quad+aff"); pushQ(Q1 - A1, q1.p + (-1.0 * a1.p), "quad-aff"); break;
      case 52: pushQ(A1 + Q1, q1.p + a1.p, "aff+quad"); pushQ(A1 - Q1, a1.p + (-1.0 * q1.p), "aff-quad"); break;
      case 53: pushQ(v + Q1, q1.p + pv, "var+quad"); pushQ(v - Q1, pv + (-1.0 * q1.p), "var-quad"); break;
      case 54: pushQ(Q1 + Q2, q1.p + q2.p, "quad+quad"); pushQ(Q1 - Q2, q1.p + (-1.0 * q2.p), "quad-quad"); break;
      case 55:
        pushA(d * v, d * pv, "double*var");
        pushA(v * d, d * pv, "var*double");
        pushA(d * A1, d * a1.p, "double*aff");
        pushA(A1 * d, d * a1.p, "aff*double");
        pushQ(d * Q1, d * q1.p, "double*quad");
        pushQ(Q1 * d, d * q1.p, "quad*double");
        break;
      case 56: pushA(-v, -1.0 * pv, "-var"); pushA(-A1, -1.0 * a1.p, "-aff"); break;
      case 57:
        pushA(A1 + d, a1.p + pd, "aff+double");
        pushA(A1 - d, a1.p + (-1.0 * pd), "aff-double");
        pushQ(Q1 + d, q1.p + pd, "quad+double");
        pushQ(Q1 - d, q1.p + (-1.0 * pd), "quad-double");
        pushQ(Q1 + v, q1.p + pv, "quad+var");
        pushQ(Q1 - v, q1.p + (-1.0 * pv), "quad-var");
        break;
      default: break;
    }
    EXPECT(same(A1, a1.a) && same(A2, a2.a) && same(Q1, q1.q) && same(Q2, q2.q),
           "operand-changed",
           "operation " << op << " changed one of its operands");
  }
}

// the text denotes the same function
FAMILY(text, 3000, 60000)
{
  mon::Rng& r = c.rng;
  const int n = r.range(1, 5);
  VarVector vars = makeVars(n);
  // all digits are printed
  auto num = [&] { return r.chance(0.3) ? static_cast<double>(r.range(-1, 2)) : r.range(-999, 999) / 16.0; };
  QuadExpr q;
  q.affexpr.constant = num();
  for (int i = r.range(0, 5); i > 0; --i)
  {
    q.affexpr.vars.push_back(r.pick(vars));
    q.affexpr.coeffs.push_back(num());
  }
  const AffExpr a = q.affexpr;
  for (int i = r.range(0, 6); i > 0; --i)
  {
    q.vars1.push_back(r.pick(vars));
    q.vars2.push_back(r.pick(vars));
    q.coeffs.push_back(num());
  }
  c.note(a.constant);
  c.note(static_cast<int>(q.size()));
  auto judge = [&](const char* what, const std::string& t, const Poly& want) {
    c.event("texts");
    try
    {
      const Poly got = readText(t, n);
      EXPECT(near(got, want, 1), std::string("text:") + what, "'" << t << "' reads as " << str(got) << ", the expression is " << str(want));
    }
    catch (const std::runtime_error& e)
    {
      EXPECT(false, std::string("text:") + what, "'" << t << "': " << e.what());
    }
    catch (const std::logic_error& e)
    {
      EXPECT(false, std::string("text:") + what, "'" << t << "': " << e.what());
    }
  };
  auto text = [](const auto& e) {
    std::ostringstream o;
    o << e;
    return o.str();
  };
  judge("affine", text(a), toPoly(a, n));
  judge("quadratic", text(q), toPoly(q, n));
  judge("AffExprToString", AffExprToString(a), toPoly(a, n));
  const bool eq = r.chance(0.5);
  auto rep = std::make_shared<CntRep>(0, nullptr);
  rep->expr = text(a);
  rep->type = eq ? EQ : INEQ;
  std::string t = text(Cnt(rep));
  const std::string tail = eq ? " == 0" : " <= 0";
  EXPECT(t.size() >= tail.size() && t.substr(t.size() - tail.size()) == tail, "text:constraint", "'" << t << "'");
  judge("constraint", t.substr(0, t.size() - tail.size()), toPoly(a, n));
  EXPECT(text(vars[0]) == "v0" && text(Var()) == "nullvar", "text:variable", text(vars[0]));
}

// vectors and scalars of the public helpers
FAMILY(vector_helpers, 3000, 60000)
{
  const int n = c.rng.range(1, 12);
  DblVec a, b;
  long double s = 0, as = 0, h = 0, d = 0;
  double mx = -1e300, m = 1;
  for (int i = 0; i < n; ++i)
  {
    a.push_back(c.rng.num());
    b.push_back(c.rng.num());
    s += a.back();
    as += std::fabs(a.back());
    h += a.back() > 0 ? a.back() : 0;
    d += static_cast<long double>(a.back()) * b.back();
    mx = std::max(mx, a.back());
    m += std::fabs(a.back()) * (1 + std::fabs(b.back()));
  }
  c.note(n);
  c.note(a[0]);
  const double t = 1e-11 * m;
  c.event("operations");
  EXPECT(std::fabs(vecSum(a) - static_cast<double>(s)) <= t, "vecSum", "vecSum " << vecSum(a));
  EXPECT(std::fabs(vecAbsSum(a) - static_cast<double>(as)) <= t, "vecAbsSum", "vecAbsSum " << vecAbsSum(a));
  EXPECT(std::fabs(vecHingeSum(a) - static_cast<double>(h)) <= t, "vecHingeSum", "vecHingeSum " << vecHingeSum(a));
  EXPECT(std::fabs(vecDot(a, b) - static_cast<double>(d)) <= t, "vecDot", "vecDot " << vecDot(a, b));
  EXPECT(vecMax(a) == mx, "vecMax", "vecMax " << vecMax(a));
  const double x = c.rng.num();
  EXPECT(pospart(x) == (x > 0 ? x : 0), "pospart", "pospart(" << x << ")=" << pospart(x));
  EXPECT(sq(x) == x * x, "sq", "sq(" << x << ")=" << sq(x));
}
MON_MAIN
