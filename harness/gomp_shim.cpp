// The OpenMP runtime entry points the code under test uses, on std::thread, so that the race detector understands them, with
// seeded delays so that schedules differ.  Work is handed out with relaxed atomics only: unlike a real runtime's, they order
// nothing between the iterations (which OpenMP does not promise either), so no race hides behind them.
#include "gomp_shim.h"
#include <thread>
#include <mutex>
#include <vector>
#include <sched.h>
#include <time.h>
namespace gompshim
{
std::atomic<std::uint64_t> seed{ 1 };
std::atomic<long> regions{ 0 }, iterations{ 0 };
std::atomic<int> max_team{ 0 }, default_team{ 2 }, procs{ 8 };
namespace
{
struct Team
{
  int n{ 1 };
  std::atomic<long> next{ 0 }, order{ 0 };
  std::atomic<int> started{ 0 }, arrived{ 0 }, gen{ 0 };
  std::atomic<bool> loop_set{ false };
  std::mutex mx;
  long end{ 0 }, incr{ 1 }, chunk{ 1 };
  std::mutex tmx;
  std::vector<std::pair<long, int>> took;  // (order, thread) of every chunk, merged at the end of a thread
};
thread_local Team* team = nullptr;
thread_local int tid = 0;
thread_local std::uint64_t rng = 1;
thread_local std::vector<std::pair<long, int>>* mine = nullptr;
std::mutex crit;
std::mutex hmx;
std::set<std::uint64_t> hashes;
}  // namespace
void jitter()
{
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  const auto k = rng % 16;
  if (k < 6)
    return;
  if (k < 12)
  {
    for (volatile unsigned i = 0; i < (rng >> 8) % 3000; i = i + 1)
      ;
    return;
  }
  if (k < 15)
  {
    sched_yield();
    return;
  }
  timespec t{ 0, static_cast<long>((rng >> 8) % 120000) };
  nanosleep(&t, nullptr);
}
void seedThread(std::uint64_t s) { rng = s * 0x9e3779b97f4a7c15ULL | 1; }
long distinctSchedules()
{
  const std::scoped_lock l(hmx);
  return static_cast<long>(hashes.size());
}
static bool take(long* is, long* ie)
{
  Team& t = *team;
  jitter();
  const long at = t.next.fetch_add(t.incr * t.chunk, std::memory_order_relaxed);
  if (t.incr > 0 ? at >= t.end : at <= t.end)
    return false;
  *is = at;
  *ie = t.incr > 0 ? std::min(at + t.incr * t.chunk, t.end) : std::max(at + t.incr * t.chunk, t.end);
  if (mine != nullptr)
    mine->emplace_back(t.order.fetch_add(1, std::memory_order_relaxed), tid);
  iterations.fetch_add(1, std::memory_order_relaxed);
  return true;
}
}  // namespace gompshim
using namespace gompshim;
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
{
  Team t;
  t.n = n == 0 ? default_team.load(std::memory_order_relaxed) : static_cast<int>(n);
  regions.fetch_add(1, std::memory_order_relaxed);
  if (t.n > max_team.load(std::memory_order_relaxed))
    max_team.store(t.n, std::memory_order_relaxed);
  const std::uint64_t s = seed.fetch_add(0x9e3779b97f4a7c15ULL, std::memory_order_relaxed);
  auto body = [&](int id) {
    Team* const ot = team;
    const int oi = tid;
    const std::uint64_t orng = rng;
    auto* const om = mine;
    std::vector<std::pair<long, int>> took;
    team = &t;
    tid = id;
    mine = &took;
    seedThread(s + static_cast<std::uint64_t>(id) * 7919);
    jitter();
    fn(data);
    mine = om;
    team = ot;
    tid = oi;
    rng = orng;
    const std::scoped_lock l(t.tmx);
    t.took.insert(t.took.end(), took.begin(), took.end());
  };
  std::vector<std::thread> th;
  for (int i = 1; i < t.n; ++i)
    th.emplace_back(body, i);
  body(0);
  for (auto& x : th)
    x.join();
  std::sort(t.took.begin(), t.took.end());
  std::uint64_t h = 1469598103934665603ULL;
  for (auto& p : t.took)
    h = (h ^ static_cast<std::uint64_t>(p.second + 1)) * 1099511628211ULL;
  h = (h ^ static_cast<std::uint64_t>(t.n)) * 1099511628211ULL;
  const std::scoped_lock l(hmx);
  hashes.insert(h);
}
bool GOMP_loop_nonmonotonic_dynamic_start(long start, long end, long incr, long chunk, long* is, long* ie)
{
  if (team == nullptr)
  {
    *is = start;
    *ie = end;
    return incr > 0 ? start < end : start > end;
  }
  Team& t = *team;
  // every thread of the team brings the same numbers; the first one in sets them (the runtime orders this much)
  {
    const std::scoped_lock l(t.mx);
    if (!t.loop_set.load(std::memory_order_relaxed))
    {
      t.next.store(start, std::memory_order_relaxed);
      t.end = end;
      t.incr = incr;
      t.chunk = chunk > 0 ? chunk : 1;
      t.loop_set.store(true, std::memory_order_relaxed);
    }
  }
  return take(is, ie);
}
bool GOMP_loop_nonmonotonic_dynamic_next(long* is, long* ie) { return team != nullptr && take(is, ie); }
bool GOMP_loop_dynamic_start(long a, long b, long i, long c, long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, i, c, s, e); }
bool GOMP_loop_dynamic_next(long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_next(s, e); }
bool GOMP_loop_guided_start(long a, long b, long i, long c, long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, i, c, s, e); }
bool GOMP_loop_guided_next(long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_next(s, e); }
bool GOMP_loop_nonmonotonic_guided_start(long a, long b, long i, long c, long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, i, c, s, e); }
bool GOMP_loop_nonmonotonic_guided_next(long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_next(s, e); }
bool GOMP_loop_runtime_start(long a, long b, long i, long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, i, 1, s, e); }
bool GOMP_loop_runtime_next(long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_next(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_next(s, e); }
void GOMP_barrier()
{
  if (team == nullptr)
    return;
  Team& t = *team;
  const int g = t.gen.load();
  if (t.arrived.fetch_add(1) + 1 == t.n)
  {
    t.arrived.store(0);
    t.loop_set.store(false);
    t.gen.fetch_add(1);
    return;
  }
  while (t.gen.load() == g)
    sched_yield();
}
void GOMP_loop_end_nowait() {}
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_critical_start() { crit.lock(); }
void GOMP_critical_end() { crit.unlock(); }
void GOMP_critical_name_start(void**) { crit.lock(); }
void GOMP_critical_name_end(void**) { crit.unlock(); }
void GOMP_atomic_start() { crit.lock(); }
void GOMP_atomic_end() { crit.unlock(); }
int omp_get_num_threads() { return team == nullptr ? 1 : team->n; }
int omp_get_thread_num() { return team == nullptr ? 0 : tid; }
int omp_get_max_threads() { return 4; }
int omp_get_num_procs() { return procs.load(std::memory_order_relaxed); }
int omp_in_parallel() { return team != nullptr; }
void omp_set_num_threads(int) {}
double omp_get_wtime()
{
  timespec t{};
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}
}
