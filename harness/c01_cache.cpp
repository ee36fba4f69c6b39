// C01: the pooled LRU cache.  Oracle: an executable reference model run in lock step with the real cache; the model
// fixes everything that is observable through the API and accepts any choice among equally free pooled objects.
#include "mon.h"
#include <trajopt_common/cache.h>
#include <string>

namespace
{
struct Value
{
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Eigen::Vector4d pad{ Eigen::Vector4d::Zero() };
  long tag{ -1 };
  std::vector<int> payload;
};

struct BadHash
{
  std::size_t operator()(int k) const { return static_cast<std::size_t>(k & 1); }
};
struct ModEq
{
  bool operator()(int a, int b) const { return a % 100 == b % 100; }
};
struct ModHash
{
  std::size_t operator()(int k) const { return static_cast<std::size_t>(k % 100); }
};

template <class K>
struct KeyOf;
template <>
struct KeyOf<int>
{
  static int make(int i) { return i; }
};
template <>
struct KeyOf<std::size_t>
{
  static std::size_t make(int i) { return static_cast<std::size_t>(i) * 0x9e3779b97f4a7c15ULL; }
};
template <>
struct KeyOf<std::string>
{
  static std::string make(int i) { return "key-" + std::to_string(i) + "-long-enough-to-be-heap-allocated"; }
};

// Reference model over logical keys
struct Model
{
  std::map<int, const Value*> map;      // logical key -> object
  std::map<const Value*, int> owner;    // object -> logical key
  std::vector<int> lru;                 // front = most recent
  std::set<const Value*> checked_out;   // acquired on a miss and not handed back
  std::set<const Value*> seen;          // every pooled object ever returned
  std::size_t capacity{ 0 };
  void touch(int k)
  {
    lru.erase(std::remove(lru.begin(), lru.end(), k), lru.end());
    lru.insert(lru.begin(), k);
  }
  void drop(int k)
  {
    auto it = map.find(k);
    if (it == map.end())
      return;
    owner.erase(it->second);
    map.erase(it);
    lru.erase(std::remove(lru.begin(), lru.end(), k), lru.end());
  }
};

template <class K, class H, class E>
void history(mon::Case& c, int nkeys, int eq_mod)
{
  using Cache = trajopt_common::Cache<K, Value, H, E>;
  const int req_cap = c.rng.range(0, 5);
  Cache cache(static_cast<std::size_t>(req_cap));
  Model m;
  m.capacity = req_cap == 0 ? 1 : static_cast<std::size_t>(req_cap);
  c.trace << "cap=" << req_cap << " keys=" << nkeys << ":";
  EXPECT(cache.capacity() == m.capacity, "initial-capacity", "capacity " << cache.capacity() << " for " << req_cap);
  EXPECT(cache.size() == 0, "initial-size", "a new cache is not empty");

  std::vector<typename Cache::Ptr> held;  // pointers the caller still holds (some checked out, some not)
  std::map<const Value*, long> tag;
  long next_tag = 1;
  bool evicted = false, grew = false;

  auto sizes = [&](const char* op) {
    EXPECT(cache.size() == m.map.size(), "size", op << ": size " << cache.size() << " model " << m.map.size());
    EXPECT(cache.capacity() == m.capacity, "capacity", op << ": cap " << cache.capacity() << " model " << m.capacity);
  };
  auto logical = [&](int i) { return eq_mod > 0 ? i % eq_mod : i; };
  auto rawkey = [&](int i) {
    // equal keys may have several spellings
    return KeyOf<K>::make(eq_mod > 0 ? i + 100 * c.rng.range(0, 2) : i);
  };
  auto acquire = [&](int k) -> typename Cache::Ptr {
    auto r = cache.getOrAcquire(rawkey(k));
    EXPECT(r.first != nullptr, "acquire-null", "getOrAcquire returned a null object");
    const Value* raw = r.first.get();
    auto it = m.map.find(logical(k));
    if (it != m.map.end())
    {
      EXPECT(r.second, "hit-missed", "getOrAcquire(" << k << ") reported a miss for a mapped key");
      EXPECT(raw == it->second, "hit-wrong-object", "getOrAcquire(" << k << ") hit another key's object");
      EXPECT(r.first->tag == tag[raw], "hit-wrong-content", "content tag " << r.first->tag << " want " << tag[raw]);
      m.touch(logical(k));
      c.event("hit");
      return r.first;
    }
    EXPECT(!r.second, "false-hit", "getOrAcquire(" << k << ") reported a hit for an unmapped key");
    EXPECT(m.checked_out.count(raw) == 0, "double-checkout", "an object already checked out was handed out again");
    if (m.map.size() + m.checked_out.size() < m.capacity)
    {
      EXPECT(m.owner.count(raw) == 0, "evict-while-free", "a mapped object was taken although a free one exists");
      c.event("acquire_free");
    }
    else if (!m.map.empty())
    {
      const int victim = m.lru.back();
      EXPECT(m.map[victim] == raw, "evict-not-lru", "acquire evicted something else than the least recent key "
                                                        << victim);
      m.drop(victim);
      evicted = true;
      c.event("acquire_evict");
    }
    else
    {
      EXPECT(m.seen.count(raw) == 0, "grow-reused", "growing returned an object already in use");
      m.capacity *= 2;
      grew = true;
      c.event("acquire_grow");
    }
    m.checked_out.insert(raw);
    m.seen.insert(raw);
    EXPECT(m.seen.size() <= m.capacity, "pool-exceeds-capacity", m.seen.size() << " distinct objects, capacity "
                                                                               << m.capacity);
    return r.first;
  };
  auto put = [&](int k, const typename Cache::Ptr& p) {
    p->tag = next_tag++;
    p->payload.assign(static_cast<std::size_t>(c.rng.range(0, 4)), static_cast<int>(p->tag));
    tag[p.get()] = p->tag;
    const bool ok = cache.put(rawkey(k), p);
    EXPECT(ok, "put-refused", "put of a pooled object was refused");
    auto ow = m.owner.find(p.get());
    if (ow != m.owner.end() && ow->second != logical(k))
      m.drop(ow->second);
    auto ex = m.map.find(logical(k));
    if (ex != m.map.end() && ex->second != p.get())
      m.drop(logical(k));
    m.map[logical(k)] = p.get();
    m.owner[p.get()] = logical(k);
    m.checked_out.erase(p.get());
    m.touch(logical(k));
    c.event("put");
  };

  const int nops = c.rng.range(8, c.thorough() ? 220 : 90);
  for (int op = 0; op < nops; ++op)
  {
    const int k = c.rng.range(0, nkeys - 1);
    switch (c.rng.range(0, 9))
    {
      case 0:
      case 1:
      {
        c.trace << " g" << k;
        auto p = cache.get(rawkey(k));
        auto it = m.map.find(logical(k));
        if (it == m.map.end())
        {
          EXPECT(p == nullptr, "get-ghost", "get(" << k << ") found an unmapped key");
          c.event("get_miss");
        }
        else
        {
          EXPECT(p != nullptr, "get-lost", "get(" << k << ") lost a mapped key");
          EXPECT(p.get() == it->second, "get-wrong-object", "get(" << k << ") returned another object");
          EXPECT(p->tag == tag[p.get()], "get-wrong-content", "get(" << k << ") returned stale content");
          m.touch(logical(k));
          c.event("get_hit");
        }
        break;
      }
      case 2:
      case 3:
      case 4:
      case 5:
      {
        const bool putting = c.rng.chance(0.7);
        c.trace << (putting ? " ap" : " a") << k;
        auto p = acquire(k);
        sizes("acquire");
        if (putting)
        {
          const int k2 = c.rng.chance(0.8) ? k : c.rng.range(0, nkeys - 1);
          put(k2, p);
        }
        if (held.size() < 8)
          held.push_back(p);
        break;
      }
      case 6:
      case 7:
      {
        if (held.empty())
          break;
        // hand back (or re-associate) any pooled object still held by the caller
        auto p = held[static_cast<std::size_t>(c.rng.range(0, static_cast<int>(held.size()) - 1))];
        c.trace << " p" << k;
        put(k, p);
        break;
      }
      case 8:
      {
        c.trace << " e" << k;
        cache.erase(rawkey(k));
        m.drop(logical(k));
        c.event("erase");
        break;
      }
      default:
      {
        if (c.rng.chance(0.3))
        {
          EXPECT(!cache.put(rawkey(k), nullptr), "put-null", "put of a null object succeeded");
        }
        if (!held.empty() && c.rng.chance(0.5))
          held.erase(held.begin() + c.rng.range(0, static_cast<int>(held.size()) - 1));
        break;
      }
    }
    sizes("op");
  }
  c.note(m.capacity);
  c.note(m.map.size());
  for (int k : m.lru)
    c.note(k);
  c.note(evicted);
  c.note(grew);

  // audit 1: drain in least-recently-used order by forcing misses on keys never used
  int fresh = nkeys;
  const bool drain = c.rng.chance(0.6);
  if (drain)
  {
    while (!m.map.empty())
    {
      acquire(eq_mod > 0 ? (nkeys + (fresh++ - nkeys) % (eq_mod - nkeys)) : fresh++);
      sizes("drain");
    }
    c.event("drained");
  }
  else
  {
    // audit 2: every mapped key is there with its content, every other key is absent
    for (int k = 0; k < nkeys; ++k)
    {
      auto p = cache.get(KeyOf<K>::make(k));
      auto it = m.map.find(k);
      EXPECT((p != nullptr) == (it != m.map.end()), "audit", "key " << k << " presence differs from the model");
      if (p)
        EXPECT(p.get() == it->second && p->tag == tag[p.get()], "audit-content", "key " << k << " content differs");
    }
    c.event("audited");
  }
}
}  // namespace

FAMILY(int_keys, 12000, 400000) { history<int, std::hash<int>, std::equal_to<int>>(c, c.rng.range(2, 9), 0); }
FAMILY(colliding_hash, 6000, 200000) { history<int, BadHash, std::equal_to<int>>(c, c.rng.range(2, 9), 0); }
FAMILY(custom_equality, 6000, 200000) { history<int, ModHash, ModEq>(c, c.rng.range(2, 9), 100); }
FAMILY(string_keys, 5000, 150000)
{
  history<std::string, std::hash<std::string>, std::equal_to<std::string>>(c, c.rng.range(2, 9), 0);
}
FAMILY(hash_keys, 5000, 150000)
{
  history<std::size_t, std::hash<std::size_t>, std::equal_to<std::size_t>>(c, c.rng.range(2, 12), 0);
}
MON_MAIN
