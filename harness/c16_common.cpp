// C16: the array, slicing, interpolation, pose and text helpers compute what their names say.
#include "mon.h"
#include <Eigen/Dense>
#include <set>
#include <thread>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <trajopt_common/basic_array.hpp>
#include <trajopt_common/clock.hpp>
#include <trajopt_common/config.hpp>
#include <trajopt_common/eigen_conversions.hpp>
#include <trajopt_common/eigen_slicing.hpp>
#include <trajopt_common/interpolation.hpp>
#include <trajopt_common/logging.hpp>
#include <trajopt_common/stl_to_string.hpp>
#include <trajopt_common/utils.hpp>
#include <trajopt_common/vector_ops.hpp>
namespace trajopt_common
{
// exported by the library (stl_to_string.cpp), not declared by its header
std::string Str(const std::vector<double>& x);
std::string Str(const std::vector<float>& x);
std::string Str(const std::vector<int>& x);
}
using namespace trajopt_common;
using Eigen::MatrixXd;
using Eigen::VectorXd;
namespace trajopt_common
{
int LoggingInit();
}

FAMILY(arrays, 60000, 1000000)
{
  mon::Rng& r = c.rng;
  const int nr = r.range(0, 6), nc = r.range(0, 6);
  using A = BasicArray<std::string>;
  std::vector<std::vector<std::string>> ref(static_cast<std::size_t>(nr), std::vector<std::string>(static_cast<std::size_t>(nc)));
  std::vector<std::string> flat;
  A a;
  for (auto& row : ref)
    for (auto& v : row)
    {
      v = "v" + std::to_string(r.range(0, 1000));
      flat.push_back(v);
      c.note(v);
    }
  c.note(nr);
  c.note(nc);
  const int how = r.range(0, 2);
  if (how == 0)
    a = A(nr, nc, flat.data());
  else
  {
    if (how == 1)
      a = A(nr, nc);
    else
    {
      if (r.chance(0.5))
        a = A(r.range(0, 4), r.range(0, 4));
      a.resize(nr, nc);
    }
    for (int i = 0; i < nr; ++i)
      for (int j = 0; j < nc; ++j)
        (r.chance(0.5) ? a(i, j) : a.at(i, j)) = ref[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)];
  }
  if (r.chance(0.3))
  {
    const A b(a);
    a = A(1, 1);
    a = b;
  }
  if (r.chance(0.3))
  {
    A b(std::move(a));
    a = std::move(b);
  }
  auto at = [&](int i, int j) -> const std::string& { return ref[static_cast<std::size_t>(i)][static_cast<std::size_t>(j)]; };
  auto is = [&](const A& x, int r0, int c0, int n, int m, const char* what) {
    EXPECT(x.rows() == n && x.cols() == m && x.size() == n * m, "array-size", what << " is " << x.rows() << "x" << x.cols() << ", expected " << n << "x" << m);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j < m; ++j)
        EXPECT(x(i, j) == at(r0 + i, c0 + j) && x.at(i, j) == at(r0 + i, c0 + j), "array", what << " (" << i << "," << j << ") from (" << r0 << "," << c0 << ") is " << x(i, j));
  };
  is(a, 0, 0, nr, nc, "array");
  EXPECT(a.flatten() == flat, "array", "flatten");
  EXPECT(nr * nc == 0 || std::equal(flat.begin(), flat.end(), a.data()), "array", "data");
  for (int k = 0; k < 3; ++k)
  {
    const int r0 = r.range(0, nr), n = r.range(0, nr - r0), c0 = r.range(0, nc), m = r.range(0, nc - c0);
    is(a.block(r0, c0, n, m), r0, c0, n, m, "block");
    try
    {
      is(a.middleRows(r0, n), r0, 0, n, nc, "middleRows");
      is(a.topRows(n), 0, 0, n, nc, "topRows");
      is(a.bottomRows(n), nr - n, 0, n, nc, "bottomRows");
    }
    catch (const std::out_of_range&)
    {
      EXPECT(false, "rows", "rows " << r0 << ".." << r0 + n - 1 << " of " << nr << "x" << nc << " cannot be taken");
    }
    c.event("blocks");
    if (r0 < nr)
    {
      std::vector<std::string> want;
      for (int j = 0; j < m; ++j)
        want.push_back(at(r0, c0 + j));
      EXPECT(a.rblock(r0, c0, m) == want, "array", "rblock");
      EXPECT(a.row(r0) == ref[static_cast<std::size_t>(r0)], "array", "row");
    }
    if (c0 < nc)
    {
      std::vector<std::string> want, whole;
      for (int i = 0; i < n; ++i)
        want.push_back(at(r0 + i, c0));
      for (int i = 0; i < nr; ++i)
        whole.push_back(at(i, c0));
      EXPECT(a.cblock(r0, c0, n) == want, "array", "cblock");
      EXPECT(a.col(c0) == whole, "array", "col");
    }
  }
}

FAMILY(vectors, 40000, 600000)
{
  mon::Rng& r = c.rng;
  const int n = r.range(0, 9);
  std::vector<double> v;
  for (int i = 0; i < n; ++i)
  {
    v.push_back(r.chance(0.3) ? 0.0 : r.num());
    c.note(v.back());
  }
  c.note(n);
  const VectorXd e = toVectorXd(v);
  EXPECT(e.size() == n && toDblVec(e) == v, "conversion", "of " << n << " values");
  const int rows = r.range(0, 4), cols = r.range(0, 4);
  MatrixXd M(rows, cols);
  std::vector<double> by_row;
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
      by_row.push_back(M(i, j) = r.num());
  EXPECT(toDblVec(M) == by_row, "conversion", "of a " << rows << "x" << cols << " matrix");
  std::vector<int> inds, nz;
  VectorXd want(n == 0 ? 0 : r.range(0, 6));
  for (Eigen::Index i = 0; i < want.size(); ++i)
  {
    inds.push_back(r.range(0, n - 1));
    want(i) = v[static_cast<std::size_t>(inds.back())];
  }
  EXPECT(fancySlice(e, inds) == want, "slice", "fancySlice");
  for (int i = 0; i < n; ++i)
    if (v[static_cast<std::size_t>(i)] != 0)
      nz.push_back(i);
  EXPECT(flatnonzero(e) == nz, "slice", "flatnonzero");
  const auto ar = arange(n);
  EXPECT(ar.size() == static_cast<std::size_t>(n), "arange", "size");
  for (int i = 0; i < n; ++i)
    EXPECT(ar[static_cast<std::size_t>(i)] == i, "arange", "value " << i);
  std::vector<double> w = by_row, both = v;
  both.insert(both.end(), w.begin(), w.end());
  EXPECT(concat(v, w) == both && concat(w, std::vector<double>()) == w && concat(v, v).size() == 2 * v.size(), "concat", "concat");
  const double x = r.num(), eps = r.pick(std::vector<double>{ 1e-9, 1e-5, 0.1 });
  EXPECT(doubleEquals(x, x + eps * 0.4 * std::max(1.0, std::abs(x) * 1e-12), eps) || std::abs(x) > 1e3, "doubleEquals", x << " within " << eps);
  EXPECT(!doubleEquals(x, x + 2 * eps + std::abs(x) * 1e-9, eps) && !doubleEquals(x + 2 * eps + std::abs(x) * 1e-9, x, eps), "doubleEquals", x << " beyond " << eps);
  c.event("vectors");
}

FAMILY(interpolation, 40000, 600000)
{
  mon::Rng& r = c.rng;
  const int no = r.range(1, 7), nn = r.range(0, 10), k = r.range(1, 4);
  VectorXd xo(no), xn(nn);
  MatrixXd y(no, k);
  double at = r.num();
  if (std::abs(at) > 1e3)
    at = 0;
  for (int i = 0; i < no; ++i)
  {
    xo(i) = at;
    at += r.chance(0.1) ? 0.0 : r.unif(1e-3, 2);
    for (int j = 0; j < k; ++j)
      y(i, j) = r.unif(-3, 3);
  }
  std::vector<double> s;
  for (int i = 0; i < nn; ++i)
    s.push_back(r.chance(0.3) ? xo(r.range(0, no - 1)) : r.unif(xo(0) - 1, xo(no - 1) + 1));
  std::sort(s.begin(), s.end());
  for (int i = 0; i < nn; ++i)
    c.note(xn(i) = s[static_cast<std::size_t>(i)]);
  c.note(no);
  c.trace << "xo " << xo.transpose() << " xn " << xn.transpose();
  const Eigen::VectorXi where = searchsorted(xn, xo);
  EXPECT(where.size() == nn, "searchsorted", "size");
  for (int i = 0; i < nn; ++i)
  {
    const auto want = std::lower_bound(xo.data(), xo.data() + no, xn(i)) - xo.data();
    EXPECT(where(i) == want, "searchsorted", xn(i) << " is placed at " << where(i) << ", not " << want);
  }
  const MatrixXd yn = interp2d(xn, xo, y);
  EXPECT(yn.rows() == nn && yn.cols() == k, "interp2d", "size");
  for (int i = 0; i < nn; ++i)
    for (int j = 0; j < k; ++j)
    {
      // piecewise linear, constant beyond the ends; at a jump either side's value at it
      const double x = xn(i);
      double lo = INFINITY, hi = -INFINITY;
      auto add = [&](double v) {
        lo = std::min(lo, v);
        hi = std::max(hi, v);
      };
      if (x <= xo(0))
        add(y(0, j));
      if (x >= xo(no - 1))
        add(y(no - 1, j));
      for (int q = 0; q + 1 < no; ++q)
      {
        if (x == xo(q))
          add(y(q, j));
        if (x == xo(q + 1))
          add(y(q + 1, j));
        if (x > xo(q) && x < xo(q + 1))
          add(y(q, j) + (y(q + 1, j) - y(q, j)) * (x - xo(q)) / (xo(q + 1) - xo(q)));
      }
      EXPECT(yn(i, j) >= lo - 1e-9 && yn(i, j) <= hi + 1e-9, "interp2d", "the value at " << x << " is " << yn(i, j) << ", expected " << lo << " to " << hi);
      c.event("interpolated");
    }
}

FAMILY(twists, 40000, 600000)
{
  mon::Rng& r = c.rng;
  Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
  t.linear() = Eigen::Quaterniond(r.unif(-1, 1), r.unif(-1, 1), r.unif(-1, 1), r.unif(-1, 1) + 1.5).normalized().toRotationMatrix();
  for (int i = 0; i < 3; ++i)
    t.translation()(i) = r.unif(-5, 5);
  Eigen::Matrix<double, 6, 1> w;
  const double size = r.pick(std::vector<double>{ 0, 1e-9, 1e-4, 0.1, 1, 10 });
  for (int i = 0; i < 6; ++i)
    w(i) = r.chance(0.3) ? 0.0 : size * r.unif(-1, 1);
  const double dt = r.pick(std::vector<double>{ 0, 1e-7, 0.01, 1, -1 });
  c.note(w(0));
  c.note(w(3));
  c.note(t.translation()(0));
  const Eigen::Isometry3d got = addTwist(t, w, dt);
  // the rotation by the twist (in the frame of the base) applied to the pose: exp([w]) R, by its series with repeated squaring
  Eigen::Matrix3d W;
  const Eigen::Vector3d a = w.tail(3) * dt;
  W << 0, -a(2), a(1), a(2), 0, -a(0), -a(1), a(0), 0;
  W /= 1024;
  Eigen::Matrix3d E = Eigen::Matrix3d::Identity(), P = E;
  for (int i = 1; i < 8; ++i)
  {
    P = P * W / i;
    E += P;
  }
  for (int i = 0; i < 10; ++i)
    E = E * E;
  const Eigen::Matrix3d R = E * t.linear();
  EXPECT((got.linear() - R).cwiseAbs().maxCoeff() < 1e-8, "twist", "rotation by " << a.transpose() << " differs by " << (got.linear() - R).cwiseAbs().maxCoeff());
  EXPECT((got.translation() - t.translation() - w.head(3) * dt).cwiseAbs().maxCoeff() < 1e-9, "twist", "translation");
  EXPECT((got.linear() * got.linear().transpose() - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff() < 1e-9 && got.matrix().row(3) == Eigen::RowVector4d(0, 0, 0, 1), "twist", "not a pose");
  c.event("twisted");
}

FAMILY(texts, 20000, 200000)
{
  mon::Rng& r = c.rng;
  std::vector<int> v;
  std::set<int> s;
  std::map<std::string, int> m;
  for (int n = r.range(0, 5); n > 0; --n)
  {
    v.push_back(r.range(-50, 50));
    s.insert(v.back());
    m["k" + std::to_string(r.range(0, 9))] = v.back();
    c.note(v.back());
  }
  std::string sv, ss, sm;
  for (int i : v)
    sv += (sv.empty() ? "" : ", ") + std::to_string(i);
  for (int i : s)
    ss += (ss.empty() ? "" : ", ") + std::to_string(i);
  for (auto& i : m)
    sm += (sm.empty() ? "" : ", ") + i.first + " : " + std::to_string(i.second);
  EXPECT(Str(v) == "(" + sv + ")", "text", Str(v));  // the overload of the library, see above
  EXPECT(Str<int>(v) == "(" + sv + ")", "text", Str<int>(v));
  std::vector<std::string> names(v.size(), "n");
  std::string sn;
  for (std::size_t i = 0; i < v.size(); ++i)
    sn += i ? ", n" : "n";
  EXPECT(Str(names) == "(" + sn + ")", "text", Str(names));
  EXPECT(Str(s) == "{" + ss + "}", "text", Str(s));
  EXPECT(Str(m) == "{" + sm + "}", "text", Str(m));
  EXPECT(Str(std::vector<double>(v.begin(), v.end())) == "(" + sv + ")" && Str(std::vector<float>(v.begin(), v.end())) == "(" + sv + ")", "text", "of numbers");
  EXPECT(Str(v.size()) == std::to_string(v.size()), "text", "of a number");
  c.event("texts");
}

FAMILY(options, 3000, 40000)
{
  mon::Rng& r = c.rng;
  int i = r.range(-9, 9);
  double d = 0.5;
  std::string s = "old";
  std::vector<int> l{ 1, 2 };
  const int i0 = i;
  Config a, b;
  a.add(new Parameter<int>("int", &i, "i"));
  b.add(new Parameter<double>("dbl", &d, "d"));
  b.add(new Parameter<std::string>("txt", &s, "s"));
  a.add(new ParameterVec<int>("list", &l, "l"));
  CommandParser p(a);
  p.addGroup(b);
  std::vector<std::string> args{ "prog" };
  int wi = i0;
  double wd = 0.5;
  std::string ws = "old";
  std::vector<int> wl{ 1, 2 };
  std::vector<int> order{ 0, 1, 2, 3, 4 };
  r.shuffle(order);
  bool bad = false;
  for (int o : order)
  {
    if (r.chance(0.5))
      continue;
    c.note(o);
    switch (o)
    {
      case 0:
        wi = r.range(-100, 100);
        args.push_back("--int=" + std::to_string(wi));
        break;
      case 1:
        wd = r.range(-100, 100) / 8.0;
        args.push_back("--dbl");
        args.push_back(std::to_string(wd));
        break;
      case 2:
        ws = "x" + std::to_string(r.range(0, 99));
        args.push_back("--txt=" + ws);
        break;
      case 3:
        wl.clear();
        args.push_back("--list");
        for (int n = r.range(1, 4); n > 0; --n)
        {
          wl.push_back(r.range(0, 99));
          args.push_back(std::to_string(wl.back()));
        }
        break;
      default:
        if (r.chance(0.2))
        {
          bad = true;
          args.push_back(r.chance(0.5) ? "--nonsense" : "--int=abc");
        }
    }
  }
  std::vector<char*> argv;
  for (auto& x : args)
    argv.push_back(x.data());
  c.note(wi);
  c.note(wd);
  for (auto& x : args)
    c.trace << x << " ";
  bool threw = false;
  try
  {
    p.read(static_cast<int>(argv.size()), argv.data());
  }
  catch (const std::exception&)
  {
    threw = true;
  }
  EXPECT(threw == bad, "options", (bad ? "a wrong option is not refused" : "the options are refused"));
  if (!bad)
    EXPECT(i == wi && d == wd && s == ws && l == wl, "options", "values " << i << " " << d << " " << s << " " << Str(l));
  c.event(bad ? "options_refused" : "options_read");
}

FAMILY(log_threshold, 60, 400)
{
  mon::Rng& r = c.rng;
  static const std::vector<std::string> names{ "FATAL", "ERROR", "WARN", "INFO", "DEBUG", "TRACE" };
  const int k = r.range(0, 8);
  const std::string v = k < 6 ? names[static_cast<std::size_t>(k)] : r.pick(std::vector<std::string>{ "", "error", "FATAL ", "5" });
  c.note(k);
  c.note(v);
  const pid_t pid = fork();
  if (pid == 0)
  {
    const int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    dup2(n, 2);
    signal(SIGABRT, SIG_DFL);
    setenv("TRAJOPT_LOG_THRESH", v.c_str(), 1);
    LoggingInit();
    _exit(10 + static_cast<int>(GetLogLevel()));
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (k < 6)
    EXPECT(WIFEXITED(st) && WEXITSTATUS(st) == 10 + k, "log-level", v << " gives " << (WIFEXITED(st) ? WEXITSTATUS(st) - 10 : -1));
  else
    EXPECT(!(WIFEXITED(st) && WEXITSTATUS(st) >= 10), "log-level", "the value '" << v << "' is accepted");
  c.event("log_level");
}

FAMILY(clocks, 40, 200)
{
  mon::Rng& r = c.rng;
  StartClock();
  const double a = GetClock();
  double other = -1, later = -1;
  const int ms = r.range(1, 8);
  std::thread t([&] {
    usleep(static_cast<unsigned>(ms) * 1000);
    StartClock();  // of its own
    other = GetClock();
  });
  t.join();
  later = GetClock();
  c.note(ms);
  c.note(later);
  EXPECT(a >= 0 && later >= a + ms * 0.99, "clock", "the clock shows " << a << " and " << later << " ms after waiting " << ms);
  EXPECT(other >= 0 && other <= later, "clock", "the clock of another thread shows " << other);
  StartClock();
  c.event("clock");
}
MON_MAIN
