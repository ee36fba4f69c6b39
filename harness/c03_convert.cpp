// C03: conversions between expressions, triplets, sparse matrices and CSC arrays lose nothing.
#include "sco_util.h"
#include <trajopt_sco/solver_utils.hpp>
using namespace sco;
using namespace scou;

FAMILY(aff_to_sparse_vector, 6000, 200000)
{
  const int n = c.rng.range(1, 12);
  const VarVector vars = makeVars(n);
  const AffExpr e = randAff(c.rng, vars, c.rng.range(0, 14));
  const int extra = c.rng.range(0, 3);
  Eigen::SparseVector<double> v;
  if (c.rng.chance(0.3))
  {  // an output that is not empty
    v.resize(c.rng.range(1, 15));
    v.coeffRef(0) = 17;
  }
  exprToEigen(e, v, n + extra);
  const Poly p = toPoly(e, n + extra);
  c.trace << "n=" << n << " terms=" << e.size() << " extra=" << extra;
  c.note(n); c.note(e.size()); c.note(e.constant);
  EXPECT(v.size() == n + extra, "size", "sparse vector of size " << v.size());
  const Eigen::VectorXd d = v;
  EXPECT((d - p.g).cwiseAbs().maxCoeff() <= 1e-10 * (1 + mag(p)), "coefficients", d.transpose() << " vs " << p.g.transpose());
  // strictly increasing inner indices, no duplicates
  Eigen::Index last = -1;
  for (Eigen::SparseVector<double>::InnerIterator it(v); it; ++it)
  {
    EXPECT(it.index() > last, "order", "inner indices are not strictly increasing");
    last = it.index();
  }
  c.event("converted");
  // a variable outside n_vars is refused
  std::size_t mx = 0;
  for (const auto& x : e.vars)
    mx = std::max(mx, x.var_rep->index);
  if (!e.vars.empty() && mx > 0)
  {
    EXPECT_THROW_STD(exprToEigen(e, v, static_cast<Eigen::Index>(mx)), "range-unchecked", "index " << mx << " accepted with n_vars=" << mx);
    c.event("refused");
  }
}

FAMILY(quad_to_sparse_matrix, 6000, 200000)
{
  const int n = c.rng.range(1, 9);
  const VarVector vars = makeVars(n);
  const QuadExpr e = randQuad(c.rng, vars, c.rng.range(0, 20));
  const bool halved = c.rng.chance(0.5), diag = c.rng.chance(0.5);
  Eigen::SparseMatrix<double> M;
  Eigen::VectorXd g;
  exprToEigen(e, M, g, n, halved, diag);
  const Poly p = toPoly(e, n);
  c.trace << "n=" << n << " terms=" << e.size() << " halved=" << halved << " diag=" << diag;
  c.note(n); c.note(e.size()); c.note(halved); c.note(diag); c.note(e.affexpr.constant);
  EXPECT(M.rows() == n && M.cols() == n && g.size() == n, "size", "sizes " << M.rows() << "x" << M.cols() << " " << g.size());
  const Eigen::MatrixXd D = M;
  const Eigen::MatrixXd want = (halved ? 2.0 : 1.0) * p.Q;
  EXPECT((D - want).cwiseAbs().maxCoeff() <= 1e-10 * (1 + mag(p)), "matrix", "got\n" << D << "\nwant\n" << want);
  EXPECT((g - p.g).cwiseAbs().maxCoeff() <= 1e-10 * (1 + mag(p)), "vector", "affine part " << g.transpose());
  if (diag)
  {
    // every diagonal entry is stored explicitly
    for (int k = 0; k < n; ++k)
    {
      bool found = false;
      for (Eigen::SparseMatrix<double>::InnerIterator it(M, k); it; ++it)
        found = found || it.row() == k;
      EXPECT(found, "diagonal", "diagonal entry " << k << " is not stored");
    }
    c.event("forced_diagonal");
  }
  c.event("converted");
}

FAMILY(affs_to_sparse_matrix, 6000, 200000)
{
  const int n = c.rng.range(1, 9);
  const VarVector vars = makeVars(n);
  AffExprVector ev;
  const int m = c.rng.range(1, 9);
  for (int i = 0; i < m; ++i)
    ev.push_back(randAff(c.rng, vars, c.rng.range(0, 8)));
  Eigen::SparseMatrix<double> A;
  Eigen::VectorXd b;
  exprToEigen(ev, A, b, n);
  c.trace << "n=" << n << " m=" << m;
  c.note(n); c.note(m); c.note(ev[0].constant); c.note(ev.back().size());
  EXPECT(A.rows() == m && A.cols() == n && b.size() == m, "size", "sizes " << A.rows() << "x" << A.cols());
  const Eigen::MatrixXd D = A;
  for (int i = 0; i < m; ++i)
  {
    const Poly p = toPoly(ev[static_cast<std::size_t>(i)], n);
    EXPECT((D.row(i).transpose() - p.g).cwiseAbs().maxCoeff() <= 1e-10 * (1 + mag(p)), "row", "row " << i);
    EXPECT(b(i) == -p.c, "rhs", "rhs " << i << " is " << b(i) << " for constant " << p.c);
  }
  c.event("converted");
  bool any = false;
  std::size_t mx = 0;
  for (const auto& e : ev)
    for (const auto& v : e.vars)
    {
      any = true;
      mx = std::max(mx, v.var_rep->index);
    }
  if (any && mx > 0)
  {
    EXPECT_THROW_STD(exprToEigen(ev, A, b, static_cast<Eigen::Index>(mx)), "range-unchecked", "index " << mx << " accepted");
    c.event("refused");
  }
}

namespace
{
template <int UpLo, class T>
void csc(mon::Case& c, Eigen::SparseMatrix<double> S, const Eigen::MatrixXd& D, const char* what)
{
  std::vector<T> ri, cp;
  DblVec val;
  if (c.rng.chance(0.5))
  {  // outputs with old content
    ri.assign(5, T(99));
    cp.assign(3, T(99));
    val.assign(4, 99.0);
  }
  eigenToCSC<UpLo>(S, ri, cp, val);
  const Eigen::Index cols = D.cols(), rows = D.rows();
  EXPECT(static_cast<Eigen::Index>(cp.size()) == cols + 1, "csc-pointers", what << ": " << cp.size() << " column pointers for " << cols);
  EXPECT(cp[0] == T(0), "csc-first", what << ": first column pointer " << static_cast<long long>(cp[0]));
  EXPECT(static_cast<std::size_t>(cp.back()) == val.size() && ri.size() == val.size(),
         "csc-last",
         what << ": last pointer " << static_cast<long long>(cp.back()) << " with " << val.size() << " values");
  Eigen::MatrixXd R = Eigen::MatrixXd::Zero(rows, cols);
  for (Eigen::Index j = 0; j < cols; ++j)
  {
    EXPECT(cp[static_cast<std::size_t>(j)] <= cp[static_cast<std::size_t>(j) + 1], "csc-monotone", what << ": pointers decrease");
    long long last = -1;
    for (auto k = static_cast<std::size_t>(cp[static_cast<std::size_t>(j)]); k < static_cast<std::size_t>(cp[static_cast<std::size_t>(j) + 1]); ++k)
    {
      EXPECT(static_cast<long long>(ri[k]) > last && static_cast<long long>(ri[k]) < rows, "csc-rows", what << ": row indices of a column not increasing or out of range");
      last = static_cast<long long>(ri[k]);
      R(static_cast<Eigen::Index>(ri[k]), j) += val[k];
    }
  }
  Eigen::MatrixXd want = D;
  if (UpLo != 0)
    for (Eigen::Index i = 0; i < rows; ++i)
      for (Eigen::Index j = 0; j < cols; ++j)
        if ((UpLo == Eigen::Upper && i > j) || (UpLo == Eigen::Lower && i < j))
          want(i, j) = 0;
  EXPECT(R == want, "csc-values", what << ": rebuilt\n" << R << "\nwant\n" << want);
  if (UpLo != 0)
  {
    const Eigen::MatrixXd still = S;
    EXPECT(still == D, "csc-input-changed", what << ": the source matrix changed");
  }
  c.event("csc");
}
}  // namespace

FAMILY(sparse_csc_triplets, 6000, 200000)
{
  const bool square = c.rng.chance(0.5);
  const int rows = c.rng.range(1, 10), cols = square ? rows : c.rng.range(1, 10);
  Eigen::SparseMatrix<double> S(rows, cols);
  Eigen::MatrixXd D = Eigen::MatrixXd::Zero(rows, cols);
  const double density = c.rng.pick(std::vector<double>{ 0.0, 0.1, 0.4, 1.0 });
  IntVec ri, cj;
  DblVec v;
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
      if (c.rng.chance(density))
      {
        const double x = c.rng.chance(0.05) ? 0.0 : c.rng.nonzero();
        ri.push_back(i); cj.push_back(j); v.push_back(x);
        D(i, j) = x;
      }
  // any order of triplets
  std::vector<std::size_t> perm(ri.size());
  for (std::size_t i = 0; i < perm.size(); ++i)
    perm[i] = i;
  c.rng.shuffle(perm);
  IntVec ri2, cj2;
  DblVec v2;
  for (auto k : perm)
  {
    ri2.push_back(ri[k]); cj2.push_back(cj[k]); v2.push_back(v[k]);
  }
  tripletsToEigen(ri2, cj2, v2, S);
  c.trace << rows << "x" << cols << " nnz=" << v.size();
  c.note(rows); c.note(cols); c.note(v.size()); c.note(v.empty() ? 0 : v[0]);
  Eigen::MatrixXd R = S;
  EXPECT(R == D, "triplets-to-matrix", "got\n" << R << "\nwant\n" << D);
  const bool uncompress = c.rng.chance(0.4);
  if (uncompress)
  {
    S.uncompress();
    const int i = c.rng.range(0, rows - 1), j = c.rng.range(0, cols - 1);
    S.coeffRef(i, j) = 2.5;
    D(i, j) = 2.5;
    c.event("uncompressed_input");
  }
  IntVec ro{ 7 }, co{ 8 };
  DblVec vo{ 9.0 };
  eigenToTriplets(S, ro, co, vo);  // appends
  EXPECT(ro.size() == co.size() && ro.size() == vo.size() && ro[0] == 7 && co[0] == 8 && vo[0] == 9.0, "triplets-append", "existing content was lost");
  Eigen::MatrixXd R2 = Eigen::MatrixXd::Zero(rows, cols);
  for (std::size_t k = 1; k < ro.size(); ++k)
    R2(ro[k], co[k]) += vo[k];
  EXPECT(R2 == D, "matrix-to-triplets", "got\n" << R2 << "\nwant\n" << D);
  c.event("triplets");
  csc<0, int>(c, S, D, "full/int");
  csc<0, long long>(c, S, D, "full/long long");
  if (rows == cols)
  {
    csc<Eigen::Upper, int>(c, S, D, "upper/int");
    csc<Eigen::Upper, long long>(c, S, D, "upper/long long");
    csc<Eigen::Lower, int>(c, S, D, "lower/int");
  }
}

FAMILY(index_lists, 4000, 100000)
{
  const int n = c.rng.range(1, 10);
  const VarVector vars = makeVars(n);
  VarVector some;
  CntVector cs;
  for (int i = c.rng.range(0, 12); i > 0; --i)
  {
    some.push_back(c.rng.pick(vars));
    cs.emplace_back(std::make_shared<CntRep>(static_cast<std::size_t>(c.rng.range(0, 100)), nullptr));
  }
  IntVec i1{ 5 }, i2;
  SizeTVec s1, s2{ 4 };
  vars2inds(some, i1); vars2inds(some, s1); cnts2inds(cs, i2); cnts2inds(cs, s2);
  EXPECT(i1.size() == some.size() && s1.size() == some.size() && i2.size() == cs.size() && s2.size() == cs.size(), "inds-size", "index lists of another length");
  for (std::size_t i = 0; i < some.size(); ++i)
    EXPECT(s1[i] == some[i].var_rep->index && i1[i] == static_cast<int>(s1[i]) && s2[i] == cs[i].cnt_rep->index && i2[i] == static_cast<int>(s2[i]), "inds", "index " << i);
  // simplify2: the vector it stands for is unchanged, indices are unique and no listed value of the input is invented
  IntVec inds;
  DblVec vals;
  std::map<int, double> want;
  double m = 1;
  for (int i = c.rng.range(0, 12); i > 0; --i)
  {
    inds.push_back(c.rng.range(0, 6));
    vals.push_back(c.rng.chance(0.3) ? 0.0 : c.rng.num());
    want[inds.back()] += vals.back();
    m += std::fabs(vals.back());
  }
  c.note(inds.size()); c.note(vals.empty() ? 0 : vals[0]); c.note(some.size());
  const std::size_t before = inds.size();
  std::set<int> nz;
  for (std::size_t i = 0; i < inds.size(); ++i)
    if (vals[i] != 0.0)
      nz.insert(inds[i]);
  simplify2(inds, vals);
  EXPECT(inds.size() == vals.size() && inds.size() <= before, "simplify-size", "simplify2 sizes " << inds.size() << " " << vals.size());
  std::map<int, double> got;
  for (std::size_t i = 0; i < inds.size(); ++i)
  {
    EXPECT(got.count(inds[i]) == 0, "simplify-duplicate", "index " << inds[i] << " twice");
    EXPECT(nz.count(inds[i]) == 1, "simplify-zero", "index " << inds[i] << " had only zero values and was kept");
    got[inds[i]] = vals[i];
  }
  for (const auto& w : want)
    EXPECT(std::fabs((got.count(w.first) ? got[w.first] : 0.0) - w.second) <= 1e-12 * m, "simplify-value", "index " << w.first);
  c.event("simplified");
}
MON_MAIN
