// Histories of cache operations that scale: phases each of which makes n (or
// one) operations on about n entries.
#pragma once
#include <list>

#include "common.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"

namespace vh {
struct WVal { uint64_t x; };
template <class K>
struct WCache : google::simple_lru_cache::SimpleLRUCache<K, WVal, absl::Hash<K>> {
  explicit WCache(int64_t n) : google::simple_lru_cache::SimpleLRUCache<K, WVal, absl::Hash<K>>(n) {}
};

struct CacheScenario {
  bool ageMode = false, idle = false, strKeys = false;
  double limit = -1;
  int capacity = 0;  // 0: ample, 1: half of the entries
  std::vector<int> phases;
  uint64_t seed;
  static const int kPhases = 18;
  static const char* name(int p) {
    static const char* n[] = {"insert", "insert-pinned", "lookup", "lookup-and-hold", "release-fifo", "release-lifo", "release-random", "remove", "resize-entries", "iterate", "expire", "lookup-missing", "age-of-oldest", "still-in-use", "change-maximum", "remove-unpinned", "replace", "lookup-no-order"};
    return n[p];
  }
  explicit CacheScenario(Rng& g) {
    ageMode = g.chance(1, 3);
    idle = ageMode || g.chance(1, 2);
    static const double lims[] = {1e9, 3600, 1, 0.001, 0};
    limit = lims[g.below(5)];
    strKeys = g.chance(1, 3);
    capacity = static_cast<int>(g.below(2));
    phases.push_back(g.chance(4, 5) ? 0 : 1);
    for (int n = g.range(2, 9); n--;) phases.push_back(static_cast<int>(g.below(kPhases)));
    // In the age-based mode entries in use stay on the list, and each operation
    // on a cache that is too full passes them: not in proportion, by design.
    bool holds = false;
    for (int p : phases) holds = holds || p == 1 || p == 3;
    if (ageMode && holds) {
      capacity = 0;
      for (int& p : phases) if (p == 14) p = 12;
    }
    seed = g.u64();
  }
  std::string str() const {
    std::string r = std::string(ageMode ? "age-based" : "LRU") + (idle ? " limit " + std::to_string(limit) : "") + (capacity ? " half" : " ample") + ":";
    for (int p : phases) r += std::string(" ") + name(p);
    return r;
  }
};

struct CacheRun {
  CacheScenario sc;
  size_t n;
  explicit CacheRun(const CacheScenario& s, size_t n) : sc(s), n(n) {}
  void go() { sc.strKeys ? run<std::string>([](uint64_t k) { return "key" + std::to_string(k); }) : run<uint64_t>([](uint64_t k) { return k; }); }

  template <class K, class F>
  void run(F key) {
    Rng g(sc.seed);
    VClock::ns = 1700000000000000000;
    VClock::on = true;
    WCache<K> c(sc.capacity ? static_cast<int64_t>(n / 2) : static_cast<int64_t>(n) * 100);
    if (sc.ageMode) c.setAgeBasedEviction(sc.limit);
    else if (sc.idle) c.setMaxIdleSeconds(sc.limit);
    std::vector<std::pair<uint64_t, WVal*>> held;
    uint64_t tick = 1 + g.below(2000000);
    google::simple_lru_cache::SimpleLRUCacheOptions noOrder;
    noOrder.set_update_eviction_order(false);
    for (int p : sc.phases) {
      bool rnd = g.chance(1, 2);
      for (size_t i = 0; i < n; i++) {
        VClock::ns += static_cast<int64_t>(tick);
        uint64_t k = rnd ? g.below(n) : i;
        switch (p) {
          case 0: c.insert(key(i), new WVal{i}, 1); break;
          // At most one value of each key is held.
          case 1: case 3: if (held.size() < n && !(i < held.size())) {
            WVal* v;
            if (p == 1) { v = new WVal{i}; c.insertPinned(key(i), v, 1); } else v = c.lookup(key(i));
            if (v) held.push_back({i, v});
          } break;
          case 2: if (WVal* v = c.lookup(key(k))) c.release(key(k), v); break;
          case 4: case 5: case 6: break;
          case 7: c.remove(key(k)); break;
          case 8: c.updateSize(key(k), nullptr, 1 + (k & 1)); break;
          case 11: if (WVal* v = c.lookup(key(n * 3 + i))) c.release(key(n * 3 + i), v); break;
          case 12: (void)c.ageOfLRUItemInMicroseconds(); break;
          case 13: (void)c.stillInUse(key(k)); break;
          case 14: c.setMaxSize(static_cast<int64_t>(n) + (i & 1 ? 1 : 0) - (rnd ? static_cast<int64_t>(i) : 0)); break;
          case 16: c.insert(key(k), new WVal{i}, 1); break;
          case 17: if (WVal* v = c.lookupWithOptions(key(k), noOrder)) c.releaseWithOptions(key(k), v, noOrder); break;
        }
      }
      auto rel = [&](size_t i) { c.release(key(held[i].first), held[i].second); };
      if (p >= 4 && p <= 6) {
        std::vector<size_t> o;
        for (size_t i = 0; i < held.size(); i++) o.push_back(i);
        if (p == 5) std::reverse(o.begin(), o.end());
        if (p == 6) g.shuffle(o);
        for (size_t i : o) rel(i);
        held.clear();
      }
      if (p == 9) { uint64_t s = 0; for (auto it = c.begin(); it != c.end(); ++it) s += it->second->x; }
      if (p == 10) { VClock::ns += 1000000000; c.removeExpiredEntries(); }
      if (p == 15) c.removeUnpinned();
    }
    for (auto& h : held) c.release(key(h.first), h.second);
    c.clear();
    VClock::on = false;
  }
};
}  // namespace vh
