// Two caches at once, with the default disposal (delete) or a deleter that has
// a state of its own, and with keys equal without being the same: every value
// is deleted exactly once, by its own cache, and not before it is released.
#define VH_NO_CLOCK_DEFS
#include <list>

#include "clock.h"
#include "common.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"

using namespace vh;
using namespace google::simple_lru_cache;

namespace {
struct Obj;
std::map<Obj*, int>* g_alive = nullptr;  // -> the cache it belongs to
std::string* g_err = nullptr;
struct Obj {
  int cache, pins = 0, key;
  bool plain;  // to be disposed of by delete
  size_t units;
  Obj(int c, int k, size_t u, bool p) : cache(c), key(k), plain(p), units(u) { (*g_alive)[this] = c; }
  ~Obj() {
    if (pins) *g_err = "a value was disposed of while in use";
    if (!g_alive->erase(this)) *g_err = "a value was disposed of twice";
  }
};
// Keys are compared without regard to case.
struct KHash {
  size_t operator()(const std::string& s) const { size_t h = 7; for (char c : s) h = h * 31 + (c | 32); return h; }
};
struct KEq {
  bool operator()(const std::string& a, const std::string& b) const {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if ((a[i] | 32) != (b[i] | 32)) return false;
    return true;
  }
};
struct Del {
  int cache = -1;
  void operator()(Obj* o) const {
    if (o->cache != cache) *g_err = "a value was disposed of by the deleter of another cache";
    delete o;
  }
};
typedef SimpleLRUCache<std::string, Obj, KHash, KEq> Plain;
typedef SimpleLRUCacheWithDeleter<std::string, Obj, Del, KHash, KEq> WithDel;

struct Pinned { std::string key; Obj* o; int c; };

std::string name(Rng& g, int k) {
  std::string s = "key" + std::string(1, static_cast<char>('a' + k));
  for (auto& c : s) if (g.chance(1, 2)) c = static_cast<char>(c & ~32);
  return s;
}

template <class F>
void onCache(Plain* p, WithDel* d, int c, F f) { if (c == 0) f(*p); else f(*d); }
}  // namespace

void lruPart6(Run& r, Rng& g, int nops) {
  std::map<Obj*, int> alive;
  std::string err, trace;
  g_alive = &alive;
  g_err = &err;
  int64_t max[2] = {static_cast<int64_t>(g.below(12)), static_cast<int64_t>(g.below(12))};
  std::unique_ptr<Plain> p(new Plain(max[0]));
  std::unique_ptr<WithDel> d(new WithDel(max[1], Del{1}));
  std::vector<Pinned> pins;
  std::map<std::string, Obj*> cur[2];  // by lower-case key: what was put there last
  auto fail = [&](const char* prop, const std::string& key, const std::string& msg) {
    if (r.prop == prop) r.fail("two-caches/" + key, msg, trace);
    else r.count(std::string("other:") + prop);
    err = "stop";
  };
  int nkeys = g.range(1, 5);
  for (int i = 0; i < nops && err.empty(); i++) {
    int c = static_cast<int>(g.below(2)), k = static_cast<int>(g.below(nkeys));
    std::string key = name(g, k), low = "key" + std::string(1, static_cast<char>('a' + k));
    int op = static_cast<int>(g.below(12));
    if (pins.size() > 8) op = 6;
    std::string pre = "cache" + std::to_string(c) + " ";
    switch (op) {
      case 0: case 1: case 2: {
        Obj* o = new Obj(c, k, g.below(4), c == 0);
        trace += pre + "insert " + key + " units " + std::to_string(o->units) + "\n";
        cur[c][low] = o;
        onCache(p.get(), d.get(), c, [&](auto& x) { x.insert(key, o, o->units); });
        break;
      }
      case 3: {
        Obj* o = new Obj(c, k, g.below(4), c == 0);
        trace += pre + "insertPinned " + key + " units " + std::to_string(o->units) + "\n";
        o->pins = 1;
        cur[c][low] = o;
        onCache(p.get(), d.get(), c, [&](auto& x) { x.insertPinned(key, o, o->units); });
        pins.push_back({key, o, c});
        break;
      }
      case 4: case 5: {
        trace += pre + "lookup " + key + "\n";
        Obj* o = nullptr;
        onCache(p.get(), d.get(), c, [&](auto& x) { o = x.lookup(key); });
        if (!o) break;
        if (!alive.count(o)) { fail("C20", "lookup-disposed", "lookup returned a value that was disposed of"); break; }
        if (o->cache != c || cur[c][low] != o) { fail("C21", "lookup", "lookup returned another value than the one inserted last"); break; }
        o->pins++;
        pins.push_back({key, o, c});
        break;
      }
      case 6: case 7: case 8: {
        if (pins.empty()) break;
        size_t j = g.below(pins.size());
        Pinned q = pins[j];
        pins.erase(pins.begin() + j);
        q.o->pins--;
        // any spelling of the key will do
        std::string kk = name(g, q.o->key);
        trace += "cache" + std::to_string(q.c) + " release " + kk + "\n";
        onCache(p.get(), d.get(), q.c, [&](auto& x) { x.release(kk, q.o); });
        break;
      }
      case 9:
        trace += pre + "remove " + key + "\n";
        cur[c].erase(low);
        onCache(p.get(), d.get(), c, [&](auto& x) { x.remove(key); });
        break;
      case 10:
        if (!g.chance(1, 3)) break;
        trace += pre + "removeAll\n";
        cur[c].clear();
        onCache(p.get(), d.get(), c, [&](auto& x) { x.removeAll(); });
        break;
      default:
        if (!g.chance(1, 2)) break;
        max[c] = static_cast<int64_t>(g.below(12));
        trace += pre + "setMaxSize " + std::to_string(max[c]) + "\n";
        onCache(p.get(), d.get(), c, [&](auto& x) { x.setMaxSize(max[c]); });
    }
    if (!err.empty()) break;
    for (int q = 0; q < 2 && err.empty(); q++) {
      int64_t n = 0, u = 0;
      bool idle = false;
      for (auto& a : alive) if (a.second == q) { n++; u += a.first->units; idle = idle || !a.first->pins; }
      onCache(p.get(), d.get(), q, [&](auto& x) {
        if (x.entries() + x.deferredEntries() != n) fail("C20", "alive", "cache " + std::to_string(q) + " has " + std::to_string(x.entries()) + " entries and " + std::to_string(x.deferredEntries()) + " deferred, but " + std::to_string(n) + " values are not disposed of");
        else if (x.size() != u) fail("C23", "size", "size is " + std::to_string(x.size()) + " instead of " + std::to_string(u));
        else if (u > max[q] && idle) fail("C22", "too-full", "too full, with an entry not in use");
        for (auto& a : alive) if (a.second == q && a.first->pins && !x.stillInUse(name(g, a.first->key), a.first)) { fail("C21", "stillInUse", "a value in use is denied"); break; }
      });
    }
  }
  if (!err.empty() && err != "stop") { std::string m = err; fail("C20", "disposal", m); }
  if (err.empty()) {
    while (!pins.empty()) {
      Pinned q = pins.back();
      pins.pop_back();
      q.o->pins--;
      onCache(p.get(), d.get(), q.c, [&](auto& x) { x.release(q.key, q.o); });
    }
    for (int q = 0; q < 2; q++) onCache(p.get(), d.get(), q, [&](auto& x) { x.clear(); });
    if (!err.empty()) { std::string m = err; fail("C20", "disposal", m); }
    else if (!alive.empty()) fail("C20", "left", std::to_string(alive.size()) + " values were never disposed of");
  } else {
    p.release();  // not to be trusted any more
    d.release();
  }
  r.count("two_caches_ops", nops);
  r.eval(fnv(trace), nops > 10);
}
