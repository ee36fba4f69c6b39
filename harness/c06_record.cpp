// C06, second half: what exactly the BPMPD back end sends to the solver process and what it makes of the answer.
#include "sco_util.h"
#include "fake_bpmpd.h"
using namespace sco;
using namespace scou;

namespace
{
FakeBpmpd* shm()
{
  static FakeBpmpd* s = [] {
    std::string path = "bpmpd_shm." + std::to_string(getpid());
    char cwd[4096];
    if (getcwd(cwd, sizeof cwd) == nullptr)
      std::exit(3);
    path = std::string(cwd) + "/" + path;
    int fd = open(path.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(FakeBpmpd)) != 0)
      std::exit(3);
    void* p = mmap(nullptr, sizeof(FakeBpmpd), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED)
      std::exit(3);
    setenv("TRAJOPT_VERIF_BPMPD_SHM", path.c_str(), 1);
    return static_cast<FakeBpmpd*>(p);
  }();
  return s;
}
/// decode a counted-column matrix (1-based rows), insisting on sorted, unique, in-range rows
Eigen::MatrixXd decode(mon::Case& c, const FakeBpmpd::Arr& cnt, const FakeBpmpd::Arr& idx, const FakeBpmpd::Arr& nz, int rows, int cols, bool lower)
{
  Eigen::MatrixXd A = Eigen::MatrixXd::Zero(rows, cols);
  EXPECT(cnt.size == cols && idx.size == nz.size, "record-shape", "column counts " << cnt.size << " for " << cols << " columns");
  long k = 0;
  for (int j = 0; j < cols; ++j)
  {
    std::set<long> seen;
    for (long i = 0; i < static_cast<long>(cnt.v[j]); ++i, ++k)
    {
      EXPECT(k < idx.size, "record-shape", "more entries counted than sent");
      const long r = static_cast<long>(idx.v[k]) - 1;
      EXPECT(r >= 0 && r < rows, "record-range", "row index " << r << " of " << rows);
      EXPECT(seen.insert(r).second, "record-duplicate", "row " << r << " twice in a column");
      EXPECT(!lower || r >= j, "record-triangle", "an entry above the diagonal");
      A(r, j) = nz.v[k];
    }
  }
  EXPECT(k == idx.size, "record-shape", "fewer entries counted than sent");
  return A;
}
}  // namespace

FAMILY(sent_problem, 6000, 200000)
{
  FakeBpmpd* s = shm();
  auto m = createModel(ModelType::BPMPD);
  const bool big = c.rng.chance(0.01);
  const int n0 = big ? c.rng.range(200, 900) : c.rng.range(1, 7);
  VarVector vs;
  std::vector<std::pair<double, double>> bnd;
  for (int i = 0; i < n0; ++i)
  {
    double lo = c.rng.unif(-3, 0), hi = c.rng.unif(0, 3);
    const int k = c.rng.range(0, 5);
    if (k == 0) lo = -INFINITY;
    if (k == 1) hi = INFINITY;
    if (k == 2) { lo = -INFINITY; hi = INFINITY; }
    if (k == 3)
    {
      vs.push_back(m->addVar("v" + std::to_string(i)));
      lo = -INFINITY;
      hi = INFINITY;
    }
    else
      vs.push_back(m->addVar("v" + std::to_string(i), lo, hi));
    bnd.emplace_back(lo, hi);
  }
  // remove some of them: indices shift
  VarVector keep, rm;
  std::vector<std::pair<double, double>> kb;
  for (int i = 0; i < n0; ++i)
    if (c.rng.chance(0.25) && rm.size() + 1 < static_cast<std::size_t>(n0))
      rm.push_back(vs[static_cast<std::size_t>(i)]);
    else
    {
      keep.push_back(vs[static_cast<std::size_t>(i)]);
      kb.push_back(bnd[static_cast<std::size_t>(i)]);
    }
  m->removeVars(rm);
  m->update();
  const int n = static_cast<int>(keep.size());
  for (int i = 0; i < n; ++i)
    EXPECT(keep[static_cast<std::size_t>(i)].var_rep->index == static_cast<std::size_t>(i), "record-index", "index after removal");
  struct Row { AffExpr e; ConstraintType t; Cnt cnt; };
  std::vector<Row> rows;
  const int nr = big ? c.rng.range(100, 600) : c.rng.range(0, 6);
  for (int i = 0; i < nr; ++i)
  {
    Row r;
    r.e = randAff(c.rng, keep, 6);
    r.t = c.rng.chance(0.5) ? EQ : INEQ;
    r.cnt = r.t == EQ ? m->addEqCnt(r.e, "") : m->addIneqCnt(r.e, "");
    if (c.rng.chance(0.2))
      m->removeCnt(r.cnt);
    else
      rows.push_back(r);
  }
  QuadExpr obj = randQuad(c.rng, keep, big ? 3000 : 10);
  if (c.rng.chance(0.3))
  {  // what came before must not matter
    m->setObjective(randQuad(c.rng, keep, 6));
  }
  const bool aff = c.rng.chance(0.3);
  if (aff)
  {
    obj = QuadExpr(obj.affexpr);
    m->setObjective(obj.affexpr);
  }
  else
    m->setObjective(obj);
  static const int codes[] = { 2, 2, 2, 3, 4, 1, -2, 0, 5 };
  s->code = codes[c.rng.range(0, 8)];
  s->base = c.rng.unif(-50, 50);
  c.trace << "n=" << n << " rows=" << rows.size() << " removed=" << rm.size() << " affine=" << aff << " code=" << s->code;
  c.note(n); c.note(rows.size()); c.note(aff); c.note(s->code); c.note(s->base);
  const long before = s->requests;
  const CvxOptStatus st = m->optimize();
  EXPECT(s->requests == before + 1, "record-requests", "the solver was called " << s->requests - before << " times");
  const CvxOptStatus want = s->code == 2 ? CVX_SOLVED : s->code == 3 || s->code == 4 ? CVX_INFEASIBLE : CVX_FAILED;
  EXPECT(st == want, "record-status", "answer " << s->code << " became status " << int(st));
  const int mr = static_cast<int>(rows.size());
  EXPECT(s->n == n && s->m == mr, "record-size", "sent " << s->n << " x " << s->m << " for " << n << " x " << mr);
  EXPECT(s->nz == s->acolnzs.size && s->qnz == s->qcolnzs.size && s->qn == n, "record-size", "counts of non-zeros");
  EXPECT(s->rhs.size == mr && s->obj.size == n && s->lbound.size == n + mr && s->ubound.size == n + mr, "record-size", "vector sizes");
  const Eigen::MatrixXd A = decode(c, s->acolcnt, s->acolidx, s->acolnzs, mr, n, false);
  for (int i = 0; i < mr; ++i)
  {
    const Poly p = toPoly(rows[static_cast<std::size_t>(i)].e, n);
    for (int j = 0; j < n; ++j)
      EXPECT_NEAR_TOL(A(i, j), p.g(j), 1e-9, "record-row", "row " << i << " column " << j);
    // a.x - rhs within [lbound, ubound]
    const double lo = s->lbound.v[n + i], hi = s->ubound.v[n + i], r = s->rhs.v[i];
    EXPECT_NEAR_TOL(hi + r, -p.c, 1e-9, "record-row-bound", "upper limit of row " << i);
    if (rows[static_cast<std::size_t>(i)].t == EQ)
      EXPECT_NEAR_TOL(lo + r, -p.c, 1e-9, "record-row-bound", "lower limit of equality " << i);
    else
      EXPECT(lo <= -1e20, "record-row-bound", "an inequality has the lower limit " << lo);
  }
  const Eigen::MatrixXd L = decode(c, s->qcolcnt, s->qcolidx, s->qcolnzs, n, n, true);
  const Poly p = toPoly(obj, n);
  for (int i = 0; i < n; ++i)
  {
    EXPECT_NEAR_TOL(s->obj.v[i], p.g(i), 1e-9, "record-objective", "linear term " << i);
    for (int j = 0; j <= i; ++j)  // solver: 1/2 x'Qx
      EXPECT_NEAR_TOL(L(i, j), 2 * p.Q(i, j), 1e-9, "record-objective", "quadratic term " << i << "," << j);
    const auto& b = kb[static_cast<std::size_t>(i)];
    EXPECT(b.first == -INFINITY ? s->lbound.v[i] <= -1e20 : s->lbound.v[i] == b.first, "record-bound", "lower bound of " << i << ": " << s->lbound.v[i]);
    EXPECT(b.second == INFINITY ? s->ubound.v[i] >= 1e20 : s->ubound.v[i] == b.second, "record-bound", "upper bound of " << i << ": " << s->ubound.v[i]);
    EXPECT(std::isfinite(s->lbound.v[i]) && std::isfinite(s->ubound.v[i]), "record-bound", "an infinite bound was sent");
  }
  if (st == CVX_SOLVED)
  {
    VarVector o = keep;
    c.rng.shuffle(o);
    const DblVec x = m->getVarValues(o);
    for (std::size_t i = 0; i < o.size(); ++i)
      EXPECT(x[i] == s->base + static_cast<double>(o[i].var_rep->index), "record-values", "value of a variable");
  }
  c.event("sent");
  if (big)
    c.event("sent_big");
}
MON_MAIN
