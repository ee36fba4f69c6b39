// Runtime-monitoring harness core: deterministic case generation, violation recording, coverage accounting.
//
// A harness is a set of FAMILIES.  A family runs CASES; case i of a family draws every random choice from an Rng seeded
// by (VERIF_SEED, family name, i) only, so that one case is replayed by `--replay family:i` with the same seed.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mon
{
inline std::uint64_t splitmix(std::uint64_t& x)
{
  std::uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline std::uint64_t fnv(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ULL)
{
  const auto* b = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; ++i)
  {
    h ^= b[i];
    h *= 1099511628211ULL;
  }
  return h;
}
inline std::uint64_t fnv(const std::string& s, std::uint64_t h = 1469598103934665603ULL)
{
  return fnv(s.data(), s.size(), h);
}

struct Rng
{
  std::uint64_t s;
  explicit Rng(std::uint64_t seed = 1) : s(seed) {}
  std::uint64_t next() { return splitmix(s); }
  /// integer in [lo, hi]
  int range(int lo, int hi)
  {
    if (hi <= lo)
      return lo;
    return lo + static_cast<int>(next() % static_cast<std::uint64_t>(hi - lo + 1));
  }
  double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
  double unif(double lo, double hi) { return lo + (hi - lo) * unit(); }
  bool chance(double p) { return unit() < p; }
  /// A "hostile but sane" real: zero, small integers, halves, negative, moderately large and moderately small
  double num(double scale = 3.0)
  {
    switch (range(0, 9))
    {
      case 0:
        return 0.0;
      case 1:
        return 1.0;
      case 2:
        return -1.0;
      case 3:
        return static_cast<double>(range(-5, 5));
      case 4:
        return 0.5 * static_cast<double>(range(-9, 9));
      case 5:
        return unif(-100.0 * scale, 100.0 * scale);
      case 6:
        return unif(-1e-2, 1e-2);
      default:
        return unif(-scale, scale);
    }
  }
  /// a real which is never close to zero
  double nonzero(double lo = 0.1, double hi = 3.0) { return (chance(0.5) ? 1.0 : -1.0) * unif(lo, hi); }
  template <class T>
  const T& pick(const std::vector<T>& v)
  {
    return v[static_cast<std::size_t>(range(0, static_cast<int>(v.size()) - 1))];
  }
  template <class T>
  void shuffle(std::vector<T>& v)
  {
    for (std::size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[static_cast<std::size_t>(next() % i)]);
  }
};

inline std::string jesc(const std::string& s)
{
  std::string o;
  for (char ch : s)
  {
    auto c = static_cast<unsigned char>(ch);
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += ch;
    }
    else if (c == '\n')
      o += "\\n";
    else if (c < 0x20 || c >= 0x7f)
    {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += ch;
  }
  return o;
}

struct AbortCase
{
};

struct Globals
{
  std::string tier{ "quick" };
  std::uint64_t seed{ 1 };
  std::map<std::string, long long> events;
  std::unordered_set<std::uint64_t> distinct;
  std::vector<std::string> samples;
  std::map<std::string, int> sample_per_family;
  std::map<std::string, long long> cases;
  FILE* viol{ nullptr };
  long long violations{ 0 };
  std::map<std::string, int> viol_per_key;
  bool verbose{ false };
};
inline Globals& G()
{
  static Globals g;
  return g;
}

class Case
{
public:
  Rng rng;
  std::string family;
  long long idx;
  std::ostringstream trace;  // what the case did; shown with a violation
  bool nontrivial{ false };
  std::uint64_t sig{ 1469598103934665603ULL };

  Case(std::string fam, long long i, std::uint64_t seed) : family(std::move(fam)), idx(i)
  {
    std::uint64_t x = seed * 0x9e3779b97f4a7c15ULL ^ fnv(family);
    x ^= static_cast<std::uint64_t>(i + 1) * 0xd1342543de82ef95ULL;
    splitmix(x);
    rng = Rng(splitmix(x));
    trace.precision(17);
  }
  void event(const std::string& name, long long n = 1) { G().events[name] += n; }
  /// mark the case as non-trivial and mix something identifying it into its signature
  template <class T>
  void note(const T& v)
  {
    std::ostringstream o;
    o.precision(17);
    o << v << '|';
    sig = fnv(o.str(), sig);
    nontrivial = true;
  }
  void violation(const std::string& key, const std::string& msg)
  {
    auto& g = G();
    ++g.violations;
    int& n = g.viol_per_key[key];
    if (n < 3)
    {
      ++n;
      std::string t = trace.str();
      if (t.size() > 6000)
        t = t.substr(0, 2500) + " ...[cut]... " + t.substr(t.size() - 3000);
      std::fprintf(g.viol,
                   "{\"family\":\"%s\",\"idx\":%lld,\"seed\":%llu,\"key\":\"%s\",\"msg\":\"%s\",\"trace\":\"%s\"}\n",
                   jesc(family).c_str(),
                   idx,
                   static_cast<unsigned long long>(g.seed),
                   jesc(key).c_str(),
                   jesc(msg).c_str(),
                   jesc(t).c_str());
      std::fflush(g.viol);
    }
  }
  [[noreturn]] void fail(const std::string& key, const std::string& msg)
  {
    violation(key, msg);
    throw AbortCase{};
  }
  bool thorough() const { return G().tier == "thorough"; }
};

struct Family
{
  std::string name;
  long long quick_cases;
  long long thorough_cases;
  std::function<void(Case&)> fn;
};
inline std::vector<Family>& families()
{
  static std::vector<Family> f;
  return f;
}
struct Register
{
  Register(const char* n, long long q, long long t, std::function<void(Case&)> f)
  {
    families().push_back({ n, q, t, std::move(f) });
  }
};

struct Progress
{
  char family[64];
  long long idx;
  long long counter;
};

inline bool close(double a, double b, double rtol = 1e-9, double atol = 1e-9)
{
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  if (a == b)
    return true;
  return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}

inline int run_main(int argc, char** argv)
{
  std::string out, only, replay, resume_family;
  long long resume_idx = 0;
  int shard = 0, nshards = 1;
  double scale = 1.0;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--out")
      out = val();
    else if (a == "--seed")
      G().seed = std::strtoull(val().c_str(), nullptr, 10);
    else if (a == "--tier")
      G().tier = val();
    else if (a == "--family")
      only = val();
    else if (a == "--shard")
    {
      std::string v = val();
      std::sscanf(v.c_str(), "%d/%d", &shard, &nshards);
    }
    else if (a == "--replay")
      replay = val();
    else if (a == "--resume")
    {
      std::string v = val();
      auto p = v.rfind(':');
      resume_family = v.substr(0, p);
      resume_idx = std::strtoll(v.c_str() + p + 1, nullptr, 10);
    }
    else if (a == "--scale")
      scale = std::atof(val().c_str());
    else if (a == "-v")
      G().verbose = true;
    else
    {
      std::fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 3;
    }
  }
  if (out.empty())
    out = "/tmp/mon_out." + std::to_string(getpid());
  G().viol = std::fopen((out + ".viol").c_str(), "a");
  if (G().viol == nullptr)
    return 3;
  int fd = ::open((out + ".prog").c_str(), O_RDWR | O_CREAT, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(Progress)) != 0)
    return 3;
  auto* prog = static_cast<Progress*>(mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  if (prog == MAP_FAILED)
    return 3;

  std::string replay_family;
  long long replay_idx = -1;
  if (!replay.empty())
  {
    auto p = replay.rfind(':');
    replay_family = replay.substr(0, p);
    replay_idx = std::strtoll(replay.c_str() + p + 1, nullptr, 10);
  }

  bool skipping = !resume_family.empty();
  for (auto& f : families())
  {
    if (!only.empty() && f.name != only)
      continue;
    if (!replay_family.empty() && f.name != replay_family)
      continue;
    long long start = 0;
    if (skipping)
    {
      if (f.name != resume_family)
        continue;
      skipping = false;
      start = resume_idx;
    }
    long long n = G().tier == "thorough" ? f.thorough_cases : f.quick_cases;
    n = std::max<long long>(1, static_cast<long long>(static_cast<double>(n) * scale));
    std::snprintf(prog->family, sizeof prog->family, "%s", f.name.c_str());
    for (long long i = start; i < n || replay_idx >= 0; ++i)
    {
      if (replay_idx >= 0)
        i = replay_idx;
      else if (i % nshards != shard)
        continue;
      prog->idx = i;
      ++prog->counter;
      Case c(f.name, i, G().seed);
      try
      {
        f.fn(c);
      }
      catch (const AbortCase&)
      {
      }
      catch (const std::exception& e)
      {
        c.violation("exception:" + f.name, std::string("unexpected exception: ") + e.what());
      }
      catch (...)
      {
        c.violation("exception:" + f.name, "unexpected exception of unknown type");
      }
      ++G().cases[f.name];
      if (c.nontrivial)
        G().distinct.insert(fnv(f.name, c.sig));
      if (G().sample_per_family[f.name] < 1 && c.nontrivial)
      {
        ++G().sample_per_family[f.name];
        std::string t = c.trace.str();
        if (t.size() > 600)
          t = t.substr(0, 600) + "...";
        G().samples.push_back(f.name + ":" + std::to_string(i) + " " + t);
      }
      if (G().verbose)
        std::fprintf(stderr, "%s:%lld %s\n", f.name.c_str(), i, c.trace.str().c_str());
      if (replay_idx >= 0)
        break;
    }
  }

  FILE* o = std::fopen((out + ".json").c_str(), "w");
  if (o == nullptr)
    return 3;
  std::fprintf(o, "{\"cases\":{");
  const char* sep = "";
  for (auto& e : G().cases)
  {
    std::fprintf(o, "%s\"%s\":%lld", sep, jesc(e.first).c_str(), e.second);
    sep = ",";
  }
  std::fprintf(o, "},\"events\":{");
  sep = "";
  for (auto& e : G().events)
  {
    std::fprintf(o, "%s\"%s\":%lld", sep, jesc(e.first).c_str(), e.second);
    sep = ",";
  }
  std::fprintf(o, "},\"samples\":[");
  sep = "";
  for (auto& e : G().samples)
  {
    std::fprintf(o, "%s\"%s\"", sep, jesc(e).c_str());
    sep = ",";
  }
  std::fprintf(o, "],\"violations\":%lld,\"distinct\":[", G().violations);
  sep = "";
  for (auto h : G().distinct)
  {
    std::fprintf(o, "%s%llu", sep, static_cast<unsigned long long>(h >> 11));
    sep = ",";
  }
  std::fprintf(o, "]}\n");
  std::fclose(o);
  std::fclose(G().viol);
  return 0;
}
}  // namespace mon

// FAMILY(name, quick cases, thorough cases) { body using mon::Case& c }
#define FAMILY(name, q, t)                                                                                             \
  static void fam_##name(mon::Case& c);                                                                                \
  static mon::Register reg_##name(#name, q, t, fam_##name);                                                            \
  static void fam_##name(mon::Case& c)

// EXPECT(condition, key, streamed message): records a violation and ends the case when the condition is false
#define EXPECT(cond, key, msg)                                                                                         \
  do                                                                                                                   \
  {                                                                                                                    \
    if (!(cond))                                                                                                       \
    {                                                                                                                  \
      std::ostringstream o_;                                                                                           \
      o_.precision(17);                                                                                                \
      o_ << msg;                                                                                                       \
      c.fail((key), o_.str());                                                                                         \
    }                                                                                                                  \
  } while (0)

#define EXPECT_CLOSE(a, b, key, msg)                                                                                   \
  do                                                                                                                   \
  {                                                                                                                    \
    const double a_ = (a);                                                                                             \
    const double b_ = (b);                                                                                             \
    EXPECT(mon::close(a_, b_), key, msg << ": got " << a_ << ", oracle " << b_);                                       \
  } while (0)
#define EXPECT_NEAR_TOL(a, b, tol, key, msg)                                                                           \
  do                                                                                                                   \
  {                                                                                                                    \
    const double a_ = (a);                                                                                             \
    const double b_ = (b);                                                                                             \
    EXPECT(mon::close(a_, b_, tol, tol), key, msg << ": got " << a_ << ", oracle " << b_);                             \
  } while (0)
// EXPECT_THROW_STD(statement, key, msg): the statement must throw a std::exception
#define EXPECT_THROW_STD(stmt, key, msg)                                                                               \
  do                                                                                                                   \
  {                                                                                                                    \
    bool thrown_ = false;                                                                                              \
    try                                                                                                                \
    {                                                                                                                  \
      stmt;                                                                                                            \
    }                                                                                                                  \
    catch (const std::exception&)                                                                                      \
    {                                                                                                                  \
      thrown_ = true;                                                                                                  \
    }                                                                                                                  \
    EXPECT(thrown_, key, msg);                                                                                         \
  } while (0)

#define MON_MAIN                                                                                                       \
  int main(int argc, char** argv) { return mon::run_main(argc, argv); }
