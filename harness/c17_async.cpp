// C17: decompositions in the background, polled, cancelled, redone and released at any time.  Built twice, with the address
// sanitizer and with the race detector; the OpenMP runtime is replaced by one the detector understands (gomp_shim.cpp).
#include "gomp_shim.h"
#include "vhacd_util.h"
#include <memory>
#include <thread>
using namespace vh;
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
extern "C" const char* __asan_default_options() { return "max_allocation_size_mb=3000"; }
namespace
{
const std::thread::id MAIN = std::this_thread::get_id();
struct User : VHACD::IVHACD::IUserCallback, VHACD::IVHACD::IUserLogger
{
  VHACD::IVHACD* v{ nullptr };
  int updates{ 0 }, logs{ 0 }, cancel_at{ -1 };
  bool foreign{ false }, bad{ false }, cancelled{ false };
  void Update(const double overall, const double, const double, const char* const stage, const char* const op) override
  {
    foreign |= std::this_thread::get_id() != MAIN;
    bad |= !(overall >= 0 && overall <= 100) || stage == nullptr || op == nullptr || std::strlen(stage) > 100 || std::strlen(op) > 100;
    if (updates++ == cancel_at)
    {
      cancelled = true;
      v->Cancel();
    }
  }
  void Log(const char* const m) override
  {
    foreign |= std::this_thread::get_id() != MAIN;
    bad |= m == nullptr || std::strlen(m) > 10000;
    ++logs;
  }
};
struct Job
{
  Solid s;
  VHACD::IVHACD::Parameters p;
  bool floats{ false };
  std::vector<float> fp;
  std::vector<Hull> expected;
  V3 com;
  bool has_com{ false };
  void start(VHACD::IVHACD& v, std::vector<double>& points, std::vector<float>& fpoints, std::vector<std::uint32_t>& tris, User& u, mon::Case& c)
  {
    p.m_callback = u.v != nullptr ? &u : nullptr;
    p.m_logger = u.v != nullptr ? &u : nullptr;
    const auto np = static_cast<std::uint32_t>(s.points.size() / 3), nt = static_cast<std::uint32_t>(s.tris.size() / 3);
    const bool ok = floats ? v.Compute(fpoints.data(), np, tris.data(), nt, p) : v.Compute(points.data(), np, tris.data(), nt, p);
    EXPECT(ok, "async-start", "Compute of a solid fails");
    // the caller may reuse its buffers at once
    std::fill(points.begin(), points.end(), NAN);
    std::fill(fpoints.begin(), fpoints.end(), NAN);
    std::fill(tris.begin(), tris.end(), 0xffffffffU);
  }
};
std::shared_ptr<Job> job(mon::Rng& r)
{
  auto j = std::make_shared<Job>();
  do
    j->s = solid(r);
  while (j->s.convex && !r.chance(0.2));
  j->p = parameters(r);
  j->p.m_resolution = static_cast<std::uint32_t>(r.pick(std::vector<int>{ 1000, 6000, 15000, 15000 }));
  j->p.m_concavity = 0.0005;
  j->p.m_planeDownsampling = 16;
  j->p.m_convexhullDownsampling = 16;
  j->p.m_maxConvexHulls = static_cast<std::uint32_t>(r.range(1, 3));
  j->p.m_pca = r.chance(0.95) ? 1 : 0;  // the grid is small only then, but nothing is split in a coarse one
  j->floats = r.chance(0.3);
  j->fp.assign(j->s.points.begin(), j->s.points.end());
  VHACD::IVHACD* v = VHACD::CreateVHACD();
  const auto np = static_cast<std::uint32_t>(j->s.points.size() / 3), nt = static_cast<std::uint32_t>(j->s.tris.size() / 3);
  if (j->floats)
    j->s.points.assign(j->fp.begin(), j->fp.end());
  v->Compute(j->s.points.data(), np, j->s.tris.data(), nt, j->p);
  j->expected = hulls(*v);
  double x[3];
  j->has_com = v->ComputeCenterOfMass(x);
  j->com = V3(x[0], x[1], x[2]);
  v->Release();
  return j;
}
}  // namespace

FAMILY(background, 28, 1500)
{
  mon::Rng& r = c.rng;
  gompshim::procs = r.range(1, 4);
  gompshim::default_team = r.pick(std::vector<int>{ 2, 6 });  // what a thread uses that was not told
  const long regions0 = gompshim::regions;
  std::vector<std::shared_ptr<Job>> jobs;
  for (int i = 0; i < 2; ++i)
    jobs.push_back(job(r));
  c.note(jobs[0]->s.points[0]);
  c.note(jobs[1]->s.points[0]);
  gompshim::procs = r.range(1, 4);
  VHACD::IVHACD* v = VHACD::CreateVHACD_ASYNC();
  EXPECT(v->IsReady() && v->GetNConvexHulls() == 0, "async-idle", "before anything was started");
  User u;
  const bool use = r.chance(0.7);
  u.v = use ? v : nullptr;
  Job* now = nullptr;        // started last
  bool cancelled = false;    // since then
  auto pause = [&] {
    const int k = r.range(0, 4);
    if (k == 0)
      std::this_thread::sleep_for(std::chrono::microseconds(r.range(0, 30000)));
    else if (k < 3)
      for (int i = r.range(0, 3); i > 0; --i)
        gompshim::jitter();
  };
  auto result = [&] {
    const std::vector<Hull> h = hulls(*v);
    if (now == nullptr)
      EXPECT(h.empty(), "async-result", h.size() << " hulls of nothing");
    else if (cancelled)
      EXPECT(h.empty() || h == now->expected, "async-cancelled", h.size() << " hulls of a cancelled run, not those it would have had (" << now->expected.size() << ")");
    else
    {
      EXPECT(h == now->expected, "async-result", h.size() << " hulls, " << now->expected.size() << " when computed in the foreground, or they differ");
      double x[3];
      const bool has = v->ComputeCenterOfMass(x);
      EXPECT(has == now->has_com && (!has || V3(x[0], x[1], x[2]) == now->com), "async-com", "the center of mass differs");
      c.event("async_compared");
    }
  };
  auto cancels = [&] {
    if (u.cancelled)
    {
      cancelled = true;
      u.cancelled = false;
      c.event("cancelled_in_callback");
    }
  };
  const int ops = r.range(2, 8);
  for (int k = 0; k < ops; ++k)
  {
    const int op = r.range(0, 9);
    if (op < 3 || k == 0)
    {
      const bool busy = now != nullptr && !cancelled && !v->IsReady();
      cancels();
      if (use)
        u.cancel_at = r.chance(0.4) ? u.updates + r.range(0, 3) : -1;
      Job& j = *jobs[static_cast<std::size_t>(r.range(0, 1))];
      std::vector<double> points = j.s.points;
      std::vector<float> fp = j.fp;
      std::vector<std::uint32_t> tris = j.s.tris;
      now = &j;
      cancelled = u.cancelled = false;
      c.trace << (busy ? "restart " : "start ");
      j.start(*v, points, fp, tris, u, c);
      cancels();
      c.event(busy ? "restarted" : "started");
    }
    else if (op < 4)
    {
      c.trace << "cancel ";
      v->Cancel();
      cancelled = now != nullptr;
      EXPECT(v->IsReady(), "async-cancel", "it runs on after Cancel");
      cancels();
      result();
      c.event("async_cancelled");
    }
    else if (op == 4)
    {
      c.trace << "clean ";
      v->Clean();
      now = nullptr;
      cancelled = false;
      EXPECT(v->IsReady() && v->GetNConvexHulls() == 0, "async-clean", "there are hulls after Clean");
      u.cancelled = false;
      c.event("async_cleaned");
    }
    else
    {
      c.trace << "wait ";
      while (!v->IsReady())
      {
        cancels();
        if (r.chance(0.2))
        {
          double x[3];
          if (v->GetNConvexHulls() == 0)
            v->ComputeCenterOfMass(x);  // either not ready, or that of a finished run
        }
        std::this_thread::sleep_for(std::chrono::microseconds(r.range(0, 2000)));
      }
      cancels();
      result();
    }
    pause();
    cancels();
  }
  // sometimes while it runs
  const bool running = !v->IsReady();
  v->Release();
  c.event(running ? "released_running" : "async_released");
  EXPECT(!u.foreign, "async-thread", "a callback runs in another thread");
  EXPECT(!u.bad, "async-message", "a message is not what was sent");
  c.event("updates", u.updates);
  c.event("async_region", gompshim::regions - regions0);
}

FAMILY(cancelled_by_others, 10, 800)
{
  // a decomposition in the foreground, cancelled by another thread
  mon::Rng& r = c.rng;
  gompshim::procs = r.range(1, 4);
  auto j = job(r);
  c.note(j->s.points[0]);
  VHACD::IVHACD* v = VHACD::CreateVHACD();
  const auto np = static_cast<std::uint32_t>(j->s.points.size() / 3), nt = static_cast<std::uint32_t>(j->s.tris.size() / 3);
  const int delay = r.range(0, 60000);
  const bool gone = r.chance(0.3);
  c.trace << "after " << delay << " us";
  std::atomic<bool> done{ false };
  std::thread t([&] {
    std::this_thread::sleep_for(std::chrono::microseconds(delay));
    while (!done.load(std::memory_order_relaxed))
    {
      v->Cancel();
      if (gone)
        break;
      std::this_thread::sleep_for(std::chrono::microseconds(500));
    }
  });
  const bool ok = v->Compute(j->s.points.data(), np, j->s.tris.data(), nt, j->p);
  done.store(true, std::memory_order_relaxed);
  t.join();
  const std::vector<Hull> h = hulls(*v);
  EXPECT(ok ? h == j->expected : h.empty(), "cancel", (ok ? "a run that says it finished" : "a cancelled run") << " has " << h.size() << " hulls of " << j->expected.size() << ", or they differ");
  c.event(ok ? "in_time" : "cancelled_by_thread");
  const bool again = v->Compute(j->s.points.data(), np, j->s.tris.data(), nt, j->p);
  EXPECT(again && hulls(*v) == j->expected, "cancel", "the next run " << (again ? "differs" : "fails"));
  v->Release();
}

FAMILY(abandoned, 6, 200)
{
  // nothing is left behind, whenever it is released
  mon::Rng& r = c.rng;
  gompshim::procs = r.range(1, 4);
  auto j = job(r);
  c.note(j->s.points[0]);
  const int delay = r.range(0, 40000), n = r.range(1, 3);
  const bool wait = r.chance(0.4);
  auto life = [&] {
    VHACD::IVHACD* v = VHACD::CreateVHACD_ASYNC();
    for (int i = 0; i < n; ++i)
    {
      v->Compute(j->s.points.data(), static_cast<std::uint32_t>(j->s.points.size() / 3), j->s.tris.data(), static_cast<std::uint32_t>(j->s.tris.size() / 3), j->p);
      std::this_thread::sleep_for(std::chrono::microseconds(delay));
    }
    while (wait && !v->IsReady())
      std::this_thread::sleep_for(std::chrono::microseconds(500));
    v->Release();
  };
  life();
  const std::size_t before = __sanitizer_get_current_allocated_bytes();
  life();
  const auto left = static_cast<long>(__sanitizer_get_current_allocated_bytes()) - static_cast<long>(before);
  EXPECT(left <= 8192, "leak", left << " bytes stay allocated after Release of a background decomposition");
  c.event("abandoned");
}
MON_MAIN
