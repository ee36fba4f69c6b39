// C27: collision coefficients read by several threads at once, and written by threads with tables of their own.
#include "mon.h"
#include <atomic>
#include <thread>
#include <trajopt_common/collision_types.h>
using trajopt_common::CollisionCoeffData;

FAMILY(threads, 40, 1000)
{
  mon::Rng& r = c.rng;
  const int n = r.range(2, 8);
  std::vector<std::string> names;
  for (int i = 0; i < 8; ++i)
    names.push_back("link_" + std::to_string(i));
  std::map<std::pair<int, int>, double> model;
  CollisionCoeffData shared(3.5);
  for (int i = r.range(1, 20); i > 0; --i)
  {
    const int a = r.range(0, 7), b = r.range(0, 7);
    const double v = r.chance(0.2) ? 0 : r.unif(0.1, 9);
    model[{ std::min(a, b), std::max(a, b) }] = v;
    shared.setCollisionCoeff(names[static_cast<std::size_t>(a)], names[static_cast<std::size_t>(b)], v);
  }
  std::atomic<int> wrong{ 0 }, ready{ 0 };
  std::atomic<long> reads{ 0 };
  std::vector<std::thread> ts;
  for (int t = 0; t < n; ++t)
  {
    const std::uint64_t seed = r.next();
    ts.emplace_back([&, t, seed] {
      mon::Rng q(seed);
      CollisionCoeffData own = shared;
      std::map<std::pair<int, int>, double> mine = model;
      ++ready;
      while (ready.load() < n)
        std::this_thread::yield();
      for (int k = 0; k < 300; ++k)
      {
        const int a = q.range(0, 7), b = q.range(0, 7);
        const std::pair<int, int> p{ std::min(a, b), std::max(a, b) };
        const auto it = model.find(p);
        const double v = shared.getCollisionCoeff(names[static_cast<std::size_t>(a)], names[static_cast<std::size_t>(b)]);
        if (v != (it == model.end() ? 3.5 : it->second))
          ++wrong;
        if (q.chance(0.3))
        {
          mine[p] = t + k;
          own.setCollisionCoeff(names[static_cast<std::size_t>(b)], names[static_cast<std::size_t>(a)], t + k);
        }
        const auto im = mine.find(p);
        if (own.getCollisionCoeff(names[static_cast<std::size_t>(a)], names[static_cast<std::size_t>(b)]) != (im == mine.end() ? 3.5 : im->second))
          ++wrong;
        if (q.chance(0.05) && (shared != shared || own.getPairsWithZeroCoeff().size() > own.getCollisionCoeffPairData().size()))
          ++wrong;
        reads += 2;
      }
    });
  }
  for (auto& t : ts)
    t.join();
  EXPECT(wrong.load() == 0, "threads", wrong.load() << " of " << reads.load() << " coefficients read wrongly by one of " << n << " threads");
  c.event("read_together", reads.load());
  c.note(static_cast<double>(n));
  c.note(static_cast<double>(model.size()));
}
MON_MAIN
