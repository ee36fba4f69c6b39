#pragma once
#include <algorithm>
#include <atomic>
#include <cstdint>
#include <set>
namespace gompshim
{
extern std::atomic<std::uint64_t> seed;  // of the delays
extern std::atomic<long> regions, iterations;
extern std::atomic<int> max_team;
extern std::atomic<int> default_team, procs;  // threads of a region that does not say, and processors
long distinctSchedules();
void jitter();
void seedThread(std::uint64_t s);
}  // namespace gompshim
