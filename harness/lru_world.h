#pragma once
#define VH_NO_CLOCK_DEFS
// C20-C25: random histories of operations on the cache under a virtual clock.
// After every operation the monitor compares what was observed (removal
// callbacks, iteration, counters, times) with what one step of the
// specification allows from the state observed before it. The state is taken
// from the observations again after each step, so that a deviation counts for
// the property it belongs to only.
#include <cmath>
#include <limits>
#include <list>
#include <memory>
#include <string_view>

#include "clock.h"
#include "common.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"

using namespace vh;
using namespace google::simple_lru_cache;

namespace {

struct Val {
  int id = 0;
  int key = 0;
  char* text = nullptr;  // storage of a string_view key, freed on disposal
  size_t textLen = 0;
  uint64_t units = 0;
  int pins = 0;
  bool cross = false;    // in use since before the mode was switched
  bool live = false;     // found in the table when last observed
  bool left = false;     // has left the table
  bool userGone = false; // removed or replaced by the caller
  int disposed = 0;
  uint64_t stamp = 0;    // place in the eviction order
  int64_t time = 0;      // last use (insertion in age mode), microseconds
};

struct Hook {
  virtual ~Hook() {}
  virtual void onDispose(Val* v) = 0;
};
Hook* g_hook = nullptr;

struct DebugRec { const Val* v; int pin; int64_t last; bool deferred; };
std::vector<DebugRec>* g_debug = nullptr;

template <class K>
struct KeyTraits;
// Few distinct hashes: collisions matter.
template <>
struct KeyTraits<int> {
  struct Hash { size_t operator()(int k) const { return k & 1; } };
  static int make(int k, Val*) { return k * 7 - 3; }
  static int id(int k) { return (k + 3) / 7; }
};
template <>
struct KeyTraits<std::string> {
  typedef std::hash<std::string> Hash;
  static std::string make(int k, Val*) { return (k % 3 == 0 ? std::string(40, 'k') : std::string("k")) + std::to_string(k); }
  static int id(const std::string& s) { return atoi(s.c_str() + s.find_first_not_of('k')); }
};
template <>
struct KeyTraits<std::string_view> {
  struct Hash {
    size_t operator()(std::string_view s) const {
      size_t h = 17;
      for (char c : s) h = h * 31 + c;
      return h;
    }
  };
  // A key that lives exactly as long as its value.
  static std::string_view make(int k, Val* v) {
    std::string s = "key-number-" + std::to_string(k);
    if (!v) {
      static std::string names[512];
      names[k] = s;
      return names[k];
    }
    v->textLen = s.size();
    v->text = new char[s.size()];
    memcpy(v->text, s.data(), s.size());
    return std::string_view(v->text, s.size());
  }
  static int id(std::string_view s) { return atoi(std::string(s.substr(11)).c_str()); }
};

template <class K>
class Cache : public SimpleLRUCache<K, Val, typename KeyTraits<K>::Hash> {
 public:
  explicit Cache(int64_t n) : SimpleLRUCache<K, Val, typename KeyTraits<K>::Hash>(n) {}
  int64_t maxEntries = INT64_MAX;
  // Whether the override looks at the units too; the cache does so anyhow.
  bool unitsToo = true;

 protected:
  void removeElement(Val* v) override { g_hook->onDispose(v); }
  bool isOverfull() const override { return (unitsToo && this->size() > this->maxSize()) || this->entries() > maxEntries; }
  void debugIterator(const Val* v, int pin, int64_t last, bool deferred, std::string* out) const override {
    if (g_debug) g_debug->push_back({v, pin, last, deferred});
    out->append("x");
  }
};
struct Deleter {
  void operator()(Val* v) const { g_hook->onDispose(v); }
};
template <class K>
class Cache2 : public SimpleLRUCacheWithDeleter<K, Val, Deleter, typename KeyTraits<K>::Hash> {
 public:
  explicit Cache2(int64_t n) : SimpleLRUCacheWithDeleter<K, Val, Deleter, typename KeyTraits<K>::Hash>(n) {}
  int64_t maxEntries = INT64_MAX;
  bool unitsToo = true;
};

template <class K, class C>
struct World : Hook {
  typedef KeyTraits<K> T;
  typedef typename C::ScopedLookup Scoped;
  struct Pin {
    Val* v;
    bool upd;
    std::unique_ptr<Scoped> scoped;
    int more = 0;  // further lookups of the same kind, not released
  };

  Run& r;
  Rng g;
  bool mixed, timed;  // C25 and C24 workloads
  bool noUpd;         // with lookups that leave the order alone
  bool ties;
  C* c = nullptr;
  std::vector<std::unique_ptr<Val>> vals;
  std::vector<Pin> pins;
  std::vector<Val*> log;  // disposals of the current operation
  std::string trace;
  uint64_t clockStamp = 0;
  int ids = 0;
  int64_t nowUs = 0, maxIdle = -1;
  bool lru = true, switched = false;
  int nkeys;
  int64_t maxUnits, maxEntries = INT64_MAX;
  bool bad = false;
  uint64_t nEvict = 0, nDeferDisp = 0, nReplace = 0, nExpire = 0, nOverlap = 0, nDeferred = 0, nSelf = 0, nAgePinned = 0, nMany = 0, nBlind = 0, nRecycled = 0, nMass = 0;
  int blind = 0;
  bool blinds = false;

  World(Run& run, Rng rng) : r(run), g(rng) {}

  void fail(const char* prop, const std::string& key, const std::string& msg) {
    if (r.prop == prop || r.prop == "C25") {
      bad = true;
      r.fail(key, msg, "history (time in us, key#value):\n" + trace);
    } else {
      r.count(std::string("other:") + prop);
    }
  }
  static std::string nm(const Val* v) { return "k" + std::to_string(v->key) + "#" + std::to_string(v->id); }
  std::string names(const std::vector<Val*>& l) {
    std::string s;
    for (auto* v : l) s += (s.empty() ? "" : ",") + nm(v);
    return "[" + s + "]";
  }

  void onDispose(Val* v) override {
    bool known = false;
    for (auto& x : vals) known = known || x.get() == v;
    if (!known) { fail("C20", "dispose-unknown", "the removal callback got a value never inserted"); return; }
    if (++v->disposed > 1) { fail("C20", "disposed-twice", nm(v) + " was passed to the removal callback again"); return; }
    if (v->pins > 0) fail("C20", "disposed-in-use", nm(v) + " was disposed of with " + std::to_string(v->pins) + " uses not released");
    log.push_back(v);
    if (v->text) { delete[] v->text; v->text = nullptr; }
  }

  void advance() {
    int64_t d;
    switch (g.below(8)) {
      case 0: d = ties ? 0 : 1; break;
      case 1: d = 1; break;
      case 2: d = g.below(5) + 1; break;
      case 3: d = maxIdle > 0 && maxIdle < (1LL << 50) ? maxIdle : 1000; break;
      case 4: d = maxIdle > 0 && maxIdle < (1LL << 50) ? maxIdle + 1 : 100; break;
      case 5: d = maxIdle > 2 && maxIdle < (1LL << 50) ? maxIdle / 2 : 10; break;
      default: d = ties ? 0 : 1;
    }
    if (!ties && d == 0) d = 1;
    // Entries kept for months or centuries.
    if (timed && g.chance(1, 60)) {
      int64_t far = static_cast<int64_t>(g.below(1000) + 1) * (g.chance(1, 2) ? 1000000000000 : 86400000000);
      if (nowUs + far < 9200000000000000) { d = far; r.count("far_jumps"); }
    }
    if (nowUs + d > 9200000000000000) d = 1;  // nanoseconds must fit
    nowUs += d;
    VClock::ns = nowUs * 1000 + static_cast<int64_t>(g.below(1000));
  }

  Val* liveVal(int k) {
    for (auto& v : vals) if (v->live && v->key == k) return v.get();
    return nullptr;
  }
  int64_t units() {
    int64_t u = 0;
    for (auto& v : vals) if (!v->disposed) u += v->units;
    return u;
  }

  // One step of the specification, on copies of the observed state.
  struct Step {
    World& w;
    std::set<Val*> live;
    int64_t units;
    std::vector<Val*> evicted;      // in order
    std::set<Val*> gone, disposed;  // left the table; disposed of (both for other reasons than eviction)
    std::set<Val*> expired, maybe;
    explicit Step(World& x) : w(x), units(x.units()) {
      for (auto& v : x.vals) if (v->live) live.insert(v.get());
    }
    bool overfull() { return units > w.maxUnits || static_cast<int64_t>(live.size()) > w.maxEntries; }
    void take(Val* v, bool freed) {
      live.erase(v);
      gone.insert(v);
      if (freed) { units -= v->units; disposed.insert(v); }
    }
    void gc(const std::set<Val*>& pinned) {
      while (overfull()) {
        Val* o = nullptr;
        for (auto* v : live) if (!pinned.count(v) && (!o || v->stamp < o->stamp)) o = v;
        if (!o) break;
        live.erase(o);
        units -= o->units;
        evicted.push_back(o);
      }
    }
    void expire() {
      if (w.maxIdle < 0) return;
      std::set<Val*> l = live;
      for (auto* v : l) {
        if (w.nowUs - v->time > w.maxIdle && (!w.lru || v->pins == 0)) {
          // An entry in use when the mode was switched may stay until released.
          if (v->cross && v->pins) { maybe.insert(v); continue; }
          expired.insert(v);
          take(v, v->pins == 0);
        }
      }
    }
  };
  std::set<Val*> pinnedSet() {
    std::set<Val*> s;
    for (auto& v : vals) if (v->pins > 0) s.insert(v.get());
    return s;
  }

  // Compares the observations with the step, then takes them over.
  void check(Step& st, const char* op, Val* inserted = nullptr) {
    if (bad) return;
    if (blind > 0) {
      blind--;
      // Between looks at the cache only the callbacks are watched: a question
      // may repair what it asks for.
      std::vector<Val*> ev;
      for (auto* v : log) if (!st.disposed.count(v)) ev.push_back(v);
      bool asSaid = st.maybe.empty() && ev == st.evicted && log.size() == st.disposed.size() + st.evicted.size();
      if (asSaid) {
        for (auto* v : log) if (v->left && !v->live) nDeferDisp++;
        nEvict += ev.size();
        nMass += ev.size() >= 64;
        nExpire += st.expired.size();
        for (auto& x : vals) {
          bool now = st.live.count(x.get());
          if ((x->live || x.get() == inserted) && !now) x->left = true;
          x->live = now;
        }
        nBlind++;
        log.clear();
        return;
      }
      blind = 0;
    }
    // What is in the table now.
    std::map<int, Val*> seen;
    std::map<int, int64_t> times;
    int64_t n = 0;
    typename C::const_iterator saved = c->begin(), last;
    for (auto it = c->begin(); it != c->end(); ++it) {
      n++;
      if (!(it == saved) || (*it).second != it->second) { fail("C21", "iterate-differs", std::string(op) + ": two iterations differ"); return; }
      // A copy stays where it is and then goes on by itself.
      last = it;
      saved = last;
      ++saved;
      Val* v = it->second;
      bool known = false;
      for (auto& x : vals) known = known || x.get() == v;
      if (!known) { fail("C21", "iterate-unknown", std::string(op) + ": iteration shows a value never inserted"); return; }
      if (v->disposed) { fail("C20", "disposed-listed", std::string(op) + ": iteration shows " + nm(v) + " which was disposed of"); fail("C21", "disposed-listed", std::string(op) + ": iteration shows " + nm(v) + " which was disposed of"); if (bad) return; continue; }
      if (T::id(it->first) != v->key) fail("C21", "iterate-key", std::string(op) + ": iteration shows " + nm(v) + " under key " + std::to_string(T::id(it->first)));
      if (seen.count(v->key)) fail("C21", "iterate-twice", std::string(op) + ": iteration shows key " + std::to_string(v->key) + " twice");
      seen[v->key] = v;
      times[v->key] = lru ? it.last_use_time() : it.insertion_time();
      if (n > 1000) { fail("C21", "iterate-endless", "iteration does not end"); return; }
    }
    if (bad) return;
    for (auto* v : st.maybe) if (!seen.count(v->key) || seen[v->key] != v) { st.expired.insert(v); st.take(v, false); }
    // C22: the evictions, in order.
    std::vector<Val*> ev;
    for (auto* v : log) if (!st.disposed.count(v)) ev.push_back(v);
    std::set<Val*> evs(ev.begin(), ev.end());
    std::set<Val*> want(st.evicted.begin(), st.evicted.end());
    bool expiryOp = !strcmp(op, "lookup") || !strcmp(op, "removeExpiredEntries") || !strcmp(op, "setTimeout");
    if (expiryOp) {
      for (auto& x : vals) {
        Val* v = x.get();
        if (!v->live) continue;
        bool now = seen.count(v->key) && seen[v->key] == v;
        bool exp = st.expired.count(v);
        if (now && exp) fail("C24", lru ? "not-expired-idle" : "not-expired-age", std::string(op) + ": " + nm(v) + " is still there, " + std::to_string(nowUs - v->time) + " us after its last use or insertion, with a limit of " + std::to_string(maxIdle));
        if (!now && !exp) fail("C24", lru ? "expired-early-idle" : "expired-early-age", std::string(op) + ": " + nm(v) + " is gone, " + std::to_string(nowUs - v->time) + " us after its last use or insertion, with " + std::to_string(v->pins) + " pins and a limit of " + std::to_string(maxIdle));
      }
    } else if (ev != st.evicted) {
      fail("C22", evs == want ? "evict-order" : ev.size() > st.evicted.size() ? "evict-more" : ev.size() < st.evicted.size() ? "evict-less" : "evict-other",
           std::string(op) + ": evicted " + names(ev) + " instead of " + names(st.evicted) + " (units " + std::to_string(st.units) + ", max " + std::to_string(maxUnits) + ")");
    }
    if (bad) return;
    // C21: the mapping.
    for (auto& x : vals) {
      Val* v = x.get();
      bool now = seen.count(v->key) && seen[v->key] == v;
      if (now && (v->left || v->userGone)) fail("C21", "stale", std::string(op) + ": " + nm(v) + " is found after it was removed, replaced, expired or evicted");
      if (now && st.gone.count(v)) fail("C21", "still-there", std::string(op) + ": " + nm(v) + " is found after this operation should have taken it away");
      bool was = v->live || v == inserted;
      if (was && !now && !st.gone.count(v) && !want.count(v) && !(st.overfull() && evs.count(v)) && !(evs.count(v) && !st.evicted.empty()))
        fail("C21", "lost", std::string(op) + ": " + nm(v) + " is no longer found, though it was not removed, replaced, expired or evicted");
    }
    if (bad) return;
    for (auto* v : log) if (v->left && !v->live) nDeferDisp++;
    nEvict += ev.size();
    nMass += ev.size() >= 64;
    for (auto* v : st.expired) { nExpire++; if (v->pins) nAgePinned++; }
    for (auto& x : vals) {
      Val* v = x.get();
      bool now = seen.count(v->key) && seen[v->key] == v;
      if ((v->live || v == inserted) && !now) v->left = true;
      v->live = now;
      // C20: nobody can release it any more.
      if (!now && v->pins == 0 && !v->disposed)
        fail("C20", "not-disposed", std::string(op) + ": " + nm(v) + " is neither in the cache nor in use, and was not disposed of");
    }
    // C23: the counters.
    int64_t size = 0, pinned = 0, defN = 0, defU = 0;
    for (auto& x : vals) {
      if (x->disposed) continue;
      size += x->units;
      if (x->live && x->pins) pinned += x->units;
      if (!x->live && x->pins) { defN++; defU += x->units; }
    }
    nDeferred += defN;
    auto cnt = [&](const char* what, int64_t got, int64_t w) {
      if (got != w) fail("C23", what, std::string(op) + ": " + what + " is " + std::to_string(got) + " instead of " + std::to_string(w));
    };
    cnt("size", c->size(), size);
    cnt("entries", c->entries(), n);
    cnt("pinnedSize", c->pinnedSize(), pinned);
    cnt("deferredEntries", c->deferredEntries(), defN);
    cnt("deferredSize", c->deferredSize(), defU);
    cnt("maxSize", c->maxSize(), maxUnits);
    std::string sum = std::to_string(pinned) + "/" + std::to_string(defU) + "/" + std::to_string(size) + " p/d/a";
    if (c->summary() != sum) fail("C23", "summary", std::string(op) + ": summary is " + c->summary() + " instead of " + sum);
    // C22: the bound itself.
    bool idleOne = false;
    for (auto& x : vals) idleOne = idleOne || (x->live && !x->pins);
    if (c->size() > maxUnits && idleOne) fail("C22", "too-full", std::string(op) + ": the cache holds " + std::to_string(size) + " units of at most " + std::to_string(maxUnits) + " with an entry not in use");
    // C21: in use?
    for (int k = 0; k < nkeys; k++) {
      bool any = false;
      for (auto& x : vals) any = any || (x->key == k && !x->disposed && (x->live || x->pins));
      if (c->stillInUse(T::make(k, nullptr)) != any) fail("C21", "stillInUse-key", std::string(op) + ": stillInUse(k" + std::to_string(k) + ") is not " + std::to_string(any));
    }
    for (auto& x : vals) {
      bool in = !x->disposed && (x->live || x->pins);
      if (c->stillInUse(T::make(x->key, nullptr), x.get()) != in) fail("C21", "stillInUse-value", std::string(op) + ": stillInUse(" + nm(x.get()) + ") is not " + std::to_string(in));
    }
    // C24: the times.
    int64_t oldest = INT64_MAX;
    bool anyPinned = false;
    for (auto& x : vals) {
      if (!x->live) continue;
      anyPinned = anyPinned || x->pins;
      if (!lru || !x->pins) oldest = std::min(oldest, x->time);
      K k = T::make(x->key, nullptr);
      int64_t got = lru ? c->getLastUseTime(k) : c->getInsertionTime(k);
      if (got != x->time || times[x->key] != x->time)
        fail("C24", lru ? "last-use-time" : "insertion-time", std::string(op) + ": the reported time of " + nm(x.get()) + " is " + std::to_string(got) + " and, in iteration, " + std::to_string(times[x->key]) + " instead of " + std::to_string(x->time));
    }
    for (int k = 0; k < nkeys; k++)
      if (!seen.count(k) && (lru ? c->getLastUseTime(T::make(k, nullptr)) : c->getInsertionTime(T::make(k, nullptr))) != -1)
        fail("C24", "time-of-absent", std::string(op) + ": a time is reported for k" + std::to_string(k) + ", which is not in the cache");
    if (!noUpd || !anyPinned) {
      int64_t age = oldest == INT64_MAX ? 0 : nowUs - oldest;
      if (c->ageOfLRUItemInMicroseconds() != age)
        fail("C24", "oldest-age", std::string(op) + ": the reported age of the oldest entry is " + std::to_string(c->ageOfLRUItemInMicroseconds()) + " instead of " + std::to_string(age));
    }
    if (std::is_base_of<Cache<K>, C>::value && g.chance(1, 8)) {
      std::vector<DebugRec> d;
      std::string out;
      g_debug = &d;
      c->debugOutput(&out);
      g_debug = nullptr;
      std::set<const Val*> s;
      for (auto& e : d) {
        bool ok = false;
        for (auto& x : vals) if (x.get() == e.v) ok = !x->disposed && e.pin == x->pins && e.deferred == !x->live && (e.deferred || e.last == x->time) && s.insert(e.v).second;
        if (!ok) fail("C23", "debugOutput", std::string(op) + ": debugOutput shows a wrong entry");
      }
      size_t w = 0;
      for (auto& x : vals) w += !x->disposed && (x->live || x->pins);
      if (d.size() != w) fail("C23", "debugOutput", std::string(op) + ": debugOutput shows " + std::to_string(d.size()) + " entries instead of " + std::to_string(w));
      r.count("debugOutput");
    }
    // Old disposed values are not needed any more.
    log.clear();
  }

  void begin() { log.clear(); }
  void note(const std::string& s) { trace += std::to_string(nowUs) + " " + s + "\n"; }

  Val* newVal(int k) {
    Val* v = nullptr;
    if (g.chance(1, 4)) {
      // A value the cache disposed of comes back, as objects of a pool do.
      std::vector<Val*> idle;
      for (auto& x : vals) if (x->disposed == 1 && !x->pins && !x->live && !x->text) idle.push_back(x.get());
      if (!idle.empty()) {
        v = g.pick(idle);
        *v = Val();
        nRecycled++;
      }
    }
    if (!v) {
      vals.push_back(std::unique_ptr<Val>(new Val));
      v = vals.back().get();
    }
    v->id = ++ids;
    v->key = k;
    switch (g.below(10)) {
      case 0: v->units = 0; break;
      case 1: v->units = g.below(maxUnits > 0 && maxUnits < 100000 ? 2 * maxUnits : 3); break;
      case 2: v->units = g.chance(1, 4) ? 1ULL << 40 : 3; break;
      default: v->units = 1 + g.below(3);
    }
    return v;
  }

  void opInsert(bool pinned, int k = -1, size_t units = SIZE_MAX) {
    if (k < 0) k = static_cast<int>(g.below(nkeys));
    Val* v = newVal(k);
    if (units != SIZE_MAX) v->units = units;
    K key = T::make(k, v);
    note(std::string(pinned ? "insertPinned " : "insert ") + nm(v) + " units=" + std::to_string(v->units));
    Step st(*this);
    if (Val* o = liveVal(k)) { nReplace++; o->userGone = true; st.take(o, o->pins == 0); }
    st.live.insert(v);
    std::set<Val*> p = pinnedSet();
    p.insert(v);
    st.gc(p);
    v->stamp = ++clockStamp;
    v->time = nowUs;
    begin();
    if (pinned) {
      v->pins = 1;
      pins.push_back({v, true, nullptr});
      c->insertPinned(key, v, v->units);
    } else {
      if (st.overfull()) { st.live.erase(v); st.units -= v->units; st.evicted.push_back(v); nSelf++; }
      c->insert(key, v, v->units);
    }
    check(st, pinned ? "insertPinned" : "insert", v);
  }

  void opLookup(int k = -1) {
    if (k < 0) k = static_cast<int>(g.below(nkeys));
    bool upd = !noUpd || g.chance(1, 2), sc = g.chance(1, 4);
    Step st(*this);
    st.expire();
    Val* want = nullptr;
    for (auto* v : st.live) if (v->key == k) want = v;
    K key = T::make(k, nullptr);
    SimpleLRUCacheOptions o;
    o.set_update_eviction_order(upd);
    std::unique_ptr<Scoped> s;
    begin();
    note(std::string(sc ? "ScopedLookup k" : "lookup k") + std::to_string(k) + (upd ? "" : " (no update)") + (want ? " -> " + nm(want) : " -> none"));
    Val* got;
    if (sc) {
      if (upd && g.chance(1, 2)) s.reset(new Scoped(c, key));
      else s.reset(new Scoped(c, key, o));
      got = s->value();
      if (s->found() != (got != nullptr)) fail("C21", "scoped-found", "ScopedLookup: found() contradicts value()");
      if (T::id(s->key()) != k) fail("C21", "scoped-key", "ScopedLookup: key() is not the key looked up");
      if (s->options().update_eviction_order() != upd) fail("C25", "scoped-options", "ScopedLookup: options() are not those given");
    } else {
      got = upd && g.chance(1, 2) ? c->lookup(key) : c->lookupWithOptions(key, o);
    }
    if (got) {
      bool known = false;
      for (auto& x : vals) known = known || x.get() == got;
      if (!known || got->disposed) {
        fail("C20", "lookup-disposed", "lookup returned a value that was disposed of or never inserted");
        fail("C21", "lookup-disposed", "lookup returned a value that was disposed of or never inserted");
        bad = true;
        s.release();
        return;
      }
      for (auto& p : pins) if (p.v == got && p.upd != upd) nOverlap++;
      got->pins++;
      pins.push_back({got, upd, std::move(s)});
      if (got->key != k) fail("C21", "lookup-key", "lookup k" + std::to_string(k) + " returned " + nm(got));
      else if (got->left || got->userGone) fail("C21", "lookup-stale", "lookup returned " + nm(got) + ", which was removed, replaced, expired or evicted");
    }
    if (got != want && !(got == nullptr && st.maybe.count(want))) {
      // Wrong because of expiry, or because of the mapping?
      if ((want && !got && log.size()) || (got && st.expired.count(got)))
        fail("C24", "lookup-expiry", "lookup k" + std::to_string(k) + " returned " + (got ? nm(got) : "nothing") + " instead of " + (want ? nm(want) : "nothing"));
      else
        fail("C21", "lookup", "lookup k" + std::to_string(k) + " returned " + (got ? nm(got) : "nothing") + " instead of " + (want ? nm(want) : "nothing"));
    }
    check(st, "lookup");
  }

  // Hundreds of uses of one entry at the same time.
  void opManyPins() {
    size_t before = pins.size();
    opLookup();
    if (bad || pins.size() == before) return;
    Pin& p = pins.back();
    int n;
    switch (g.below(10)) {
      case 0: n = 126 + g.below(4); break;
      case 1: case 2: case 3: n = 253 + g.below(5); break;
      case 4: n = g.chance(1, 4) ? 65533 + g.below(5) : 32766 + g.below(4); break;
      default: n = 1 + g.below(700);
    }
    note(std::to_string(n) + " more lookups of " + nm(p.v));
    Step st(*this);
    SimpleLRUCacheOptions o;
    o.set_update_eviction_order(p.upd);
    K key = T::make(p.v->key, nullptr);
    begin();
    for (int i = 0; i < n; i++) {
      Val* got = c->lookupWithOptions(key, o);
      if (got != p.v) {
        fail("C21", "lookup-again", "looking up " + nm(p.v) + " once more at the same time did not return it");
        bad = true;
        return;
      }
      p.v->pins++;
      p.more++;
    }
    nMany++;
    check(st, "many lookups");
  }

  void opRelease(bool all = false) {
    if (pins.empty()) return;
    size_t i = all ? pins.size() - 1 : g.below(pins.size());
    if (!all && g.chance(1, 3)) i = 0;
    Pin p = std::move(pins[i]);
    pins.erase(pins.begin() + i);
    Val* v = p.v;
    // A pin from insertPinned may be released either way.
    bool upd = p.upd;
    if (p.more) {
      Step many(*this);
      note("release " + nm(v) + " " + std::to_string(p.more) + " times");
      if (v->live && lru && upd) { v->stamp = ++clockStamp; v->time = nowUs; }
      SimpleLRUCacheOptions o;
      o.set_update_eviction_order(upd);
      K key = T::make(v->key, nullptr);
      begin();
      while (p.more-- && !v->disposed) {
        v->pins--;
        c->releaseWithOptions(key, v, o);
      }
      check(many, "release");
      if (bad) { p.scoped.release(); return; }
    }
    Step st(*this);
    if (--v->pins == 0) v->cross = false;
    bool wasLive = v->live;
    note("release " + nm(v) + (p.scoped ? " (scoped)" : "") + (upd ? "" : " (no update)") + " pins left " + std::to_string(v->pins));
    if (wasLive) {
      if (lru && upd) { v->stamp = ++clockStamp; v->time = nowUs; }
      if (v->pins == 0 && st.overfull()) { st.live.erase(v); st.units -= v->units; st.evicted.push_back(v); nSelf++; }
    } else if (v->pins == 0) {
      st.disposed.insert(v);
      st.units -= v->units;
    }
    begin();
    if (p.scoped) {
      p.scoped.reset();
    } else {
      K key = T::make(v->key, nullptr);
      SimpleLRUCacheOptions o;
      o.set_update_eviction_order(upd);
      if (upd && g.chance(1, 2)) c->release(key, v);
      else c->releaseWithOptions(key, v, o);
    }
    if (!wasLive && v->pins == 0 && !v->disposed)
      fail("C20", "not-disposed-at-last-release", nm(v) + " was not disposed of at its last release");
    check(st, "release");
  }

  void opRemove() {
    int k = static_cast<int>(g.below(nkeys));
    note("remove k" + std::to_string(k));
    Step st(*this);
    if (Val* o = liveVal(k)) { o->userGone = true; st.take(o, o->pins == 0); }
    begin();
    c->remove(T::make(k, nullptr));
    check(st, "remove");
  }
  void opRemoveAll(bool unpinnedOnly) {
    note(unpinnedOnly ? "removeUnpinned" : "removeAll");
    Step st(*this);
    std::set<Val*> l = st.live;
    for (auto* v : l) if (!unpinnedOnly || !v->pins) { v->userGone = true; st.take(v, v->pins == 0); }
    begin();
    if (unpinnedOnly) c->removeUnpinned();
    else c->removeAll();
    check(st, unpinnedOnly ? "removeUnpinned" : "removeAll");
  }
  void opUpdateSize(int only = -1, uint64_t to = 0) {
    std::vector<Val*> cand;
    for (auto& x : vals) if (!x->disposed) cand.push_back(x.get());
    int k = static_cast<int>(g.below(nkeys));
    Val* v = nullptr;
    if (!cand.empty() && g.chance(3, 4)) { v = g.pick(cand); k = v->key; }
    uint64_t u = g.chance(1, 25) ? (g.chance(1, 2) ? 1ULL << 31 : 1ULL << (30 + g.below(8))) + g.below(3) : g.below(6);
    if (only >= 0) { k = only; v = liveVal(k); u = to; }
    bool any = g.chance(1, 3);
    Val* arg = any ? nullptr : v;
    if (!any && !v) arg = nullptr;
    note("updateSize k" + std::to_string(k) + " " + (arg ? nm(arg) : "any") + " to " + std::to_string(u));
    std::vector<Val*> hit;
    Val* lv = liveVal(k);
    if (lv && (!arg || arg == lv)) hit.push_back(lv);
    else for (auto& x : vals) if (x->key == k && !x->live && !x->disposed && x->pins && (!arg || arg == x.get())) hit.push_back(x.get());
    for (auto* h : hit) h->units = u;
    Step st(*this);
    st.gc(pinnedSet());
    begin();
    c->updateSize(T::make(k, nullptr), arg, u);
    check(st, "updateSize");
  }
  // Room for all keys, then all but a few of them leave in one call.
  void opFillShrink() {
    int64_t few = static_cast<int64_t>(g.below(g.chance(1, 2) ? 5 : nkeys));
    opMax(INT64_MAX / 2, INT64_MAX);
    for (int k = 0; k < nkeys && !bad; k++) {
      opInsert(false, k, 1 + g.below(3));
      if (!ties || g.chance(1, 3)) advance();
    }
    if (bad) return;
    r.count("fill_and_shrink");
    switch (g.below(std::is_base_of<Cache<K>, C>::value ? 4 : 3)) {
      case 0: opMax(few, INT64_MAX); break;
      case 1:
        opMax(2 * nkeys, INT64_MAX);
        advance();
        if (!bad) opInsert(g.chance(1, 2), -1, 2 * nkeys);
        break;
      case 2: {  // one entry grows
        opMax(4 * nkeys, INT64_MAX);
        int k = static_cast<int>(g.below(nkeys));
        Val* v = bad ? nullptr : liveVal(k);
        if (v) opUpdateSize(k, static_cast<uint64_t>(4 * nkeys - few));
        break;
      }
      default: opMax(INT64_MAX / 2, few);
    }
    if (!bad && g.chance(1, 2)) opMax(4 * nkeys, INT64_MAX);
  }
  void opMax(int64_t units = -2, int64_t entries = 0) {
    if (std::is_base_of<Cache<K>, C>::value && g.chance(1, 4)) maxEntries = g.chance(1, 3) ? INT64_MAX : static_cast<int64_t>(g.below(nkeys + 1));
    maxUnits = g.chance(1, 12) ? -1 : g.chance(1, 6) ? INT64_MAX / 2 : static_cast<int64_t>(g.below(4 * nkeys));
    if (units != -2) { maxUnits = units; maxEntries = entries; }
    note("setMaxSize " + std::to_string(maxUnits) + " (entries " + std::to_string(maxEntries) + ")");
    c->maxEntries = maxEntries;
    Step st(*this);
    st.gc(pinnedSet());
    begin();
    c->setMaxSize(maxUnits);
    check(st, "setMaxSize");
  }
  void opTimeout(bool init) {
    // Without mode switches only the limit of the present mode changes.
    bool empty = !c->entries() && pins.empty();
    bool wantLru = (mixed || init || empty) ? g.chance(1, 2) : lru;
    double s;
    int64_t lim;
    switch (g.below(11)) {
      case 0: s = -1; lim = -1; break;
      case 1: s = std::numeric_limits<double>::infinity(); lim = -1; break;
      case 2: s = 0; lim = 0; break;
      case 3: lim = g.below(50); s = (lim + 0.5) / 1e6; break;
      case 4: lim = g.below(3000); s = (lim + 0.5) / 1e6; break;
      case 5: s = 1 + g.below(3); lim = static_cast<int64_t>(s) * 1000000; break;
      case 6: s = g.chance(1, 2) ? 1e13 : 1e300; lim = INT64_MAX; break;
      case 7: s = g.chance(1, 3) ? std::nan("") : g.chance(1, 2) ? -1e-9 : -std::numeric_limits<double>::infinity(); lim = -1; break;
      case 8: case 9: lim = static_cast<int64_t>(g.below(2ULL << g.below(42))); s = (lim + 0.5) / 1e6; break;
      default: lim = 5 + g.below(20); s = (lim + 0.5) / 1e6;
    }
    if (!timed && !mixed) { s = -1; lim = -1; }
    if (mixed && !init && g.chance(1, 2)) { s = -1; lim = -1; }
    if (lim >= 0 && maxIdle >= 0 && wantLru != lru) return;  // not allowed
    if (wantLru != lru && !vals.empty()) {
      switched = true;
      for (auto& x : vals) x->cross = x->pins > 0;
    }
    note(std::string(wantLru ? "setMaxIdleSeconds " : "setAgeBasedEviction ") + std::to_string(s));
    lru = wantLru;
    maxIdle = lim;
    Step st(*this);
    st.expire();
    begin();
    if (wantLru) c->setMaxIdleSeconds(s);
    else c->setAgeBasedEviction(s);
    check(st, "setTimeout");
  }
  void opExpire() {
    note("removeExpiredEntries");
    Step st(*this);
    st.expire();
    begin();
    c->removeExpiredEntries();
    check(st, "removeExpiredEntries");
  }
  void opClear() {
    if (!pins.empty()) return;
    note("clear");
    Step st(*this);
    std::set<Val*> l = st.live;
    for (auto* v : l) { v->userGone = true; st.take(v, true); }
    begin();
    blind = 0;
    c->clear();
    check(st, "clear");
    for (auto& x : vals) if (!x->disposed) fail("C20", "clear-leaves", nm(x.get()) + " was not disposed of when the cache was cleared");
  }
  // Looks up every key and compares with iteration.
  void opSweep() {
    Step st(*this);
    st.expire();
    note("sweep");
    begin();
    c->removeExpiredEntries();
    check(st, "removeExpiredEntries");
    for (int k = 0; k < nkeys && !bad; k++) {
      Step s2(*this);
      s2.expire();
      Val* in = liveVal(k);
      if (in && !s2.live.count(in)) in = nullptr;
      begin();
      Val* got = c->lookup(T::make(k, nullptr));
      if (got != in && !(!got && s2.maybe.count(in))) {
        fail("C21", "lookup-iterate", "lookup k" + std::to_string(k) + " and iteration disagree");
        bad = true;
        return;
      }
      if (!got) { check(s2, "lookup"); continue; }
      got->pins++;
      check(s2, "lookup");
      Step s3(*this);
      got->pins--;
      if (lru) { got->stamp = ++clockStamp; got->time = nowUs; }
      if (!got->pins) got->cross = false;
      if (!got->pins && s3.overfull()) { s3.live.erase(got); s3.units -= got->units; s3.evicted.push_back(got); }
      begin();
      c->release(T::make(k, nullptr), got);
      check(s3, "release");
      if (!ties) { nowUs++; VClock::ns = nowUs * 1000; }
    }
  }

  void run(int nops) {
    g_hook = this;
    nkeys = g.range(1, 6);
    // Now and then many entries, and many of them in use.
    bool crowd = g.chance(1, 150);
    size_t maxPins = 12;
    if (crowd) {
      nkeys = static_cast<int>(20 + (g.chance(1, 2) ? dictInt(g, 130) % 130 : g.below(130)));
      if (g.chance(1, 4)) nkeys += static_cast<int>(g.below(340));
      nops = 2 * nkeys + static_cast<int>(g.below(300));
      maxPins = g.chance(1, 2) ? 12 : 20 + g.below(100);
      r.count("crowds");
    }
    mixed = r.prop == "C25" || (r.prop != "C24" && g.chance(1, 4));
    noUpd = mixed || g.chance(1, 4);
    timed = r.prop == "C24" || mixed || g.chance(1, 4);
    ties = !noUpd && g.chance(1, 2);
    nowUs = g.chance(1, 6) ? 0 : g.chance(1, 5) ? 7000000000000000 : 1700000000000000 + g.below(1000000);
    VClock::ns = nowUs * 1000;
    VClock::on = true;
    maxUnits = g.chance(1, 8) ? 1 << 20 : 1 + g.below(3 * nkeys);
    c = new C(maxUnits);
    c->unitsToo = g.chance(1, 2);
    bool roomy = g.chance(1, 4);
    if (roomy) maxUnits = 1 << 30, c->setMaxSize(maxUnits);
    trace = "max " + std::to_string(maxUnits) + " keys " + std::to_string(nkeys) + "\n";
    blinds = g.chance(1, 2);
    // A history has its own mix of operations.
    int w[12];
    for (int i = 0; i < 12; i++) w[i] = static_cast<int>(g.below(6));
    w[0] += 3; w[2] += 5; w[3] += 5;
    if (crowd) { w[0] += 10; w[2] += 10; w[5] = 0; if (g.chance(2, 3)) w[6] = 0; }
    if (r.prop == "C22") { w[5] = g.below(2); w[6] = g.below(2); roomy = false; }
    w[5] = std::min(w[5], 1); w[6] = std::min(w[6], 1);
    if (!timed) w[10] = 0;
    if (!mixed && !timed) w[9] = 0;
    if (roomy) w[8] = 0; else w[8] = std::min(w[8], 2);
    if (mixed) { w[9] = std::min(w[9], 3); }
    int tot = 0;
    for (int i = 0; i < 12; i++) tot += w[i];
    do opTimeout(true); while (g.chance(1, 2));
    for (int i = 0; i < nops && !bad; i++) {
      advance();
      if (pins.size() > maxPins) { opRelease(); continue; }
      if (blinds && !blind && !(timed && !lru) && g.chance(1, 10)) blind = g.range(1, 30);
      if (g.chance(1, 700)) { opManyPins(); continue; }
      if (crowd && g.chance(1, 200)) { opFillShrink(); continue; }
      int x = static_cast<int>(g.below(tot)), op = 0;
      while (x >= w[op]) x -= w[op++];
      switch (op) {
        case 0: opInsert(false); break;
        case 1: opInsert(true); break;
        case 2: opLookup(); break;
        case 3: opRelease(); break;
        case 4: opRemove(); break;
        case 5: opRemoveAll(g.chance(1, 2)); break;
        case 6: if (g.chance(1, 3)) opClear(); break;
        case 7: opUpdateSize(); break;
        case 8: opMax(); break;
        case 9: opTimeout(false); break;
        case 10: opExpire(); break;
        case 11: if (g.chance(1, 3)) opSweep(); break;
      }
      prune();
    }
    while (!pins.empty() && !bad) { advance(); opRelease(true); }
    if (!bad) opClear();
    if (!bad) {
      delete c;
    } else {
      for (auto& p : pins) p.scoped.release();  // the cache cannot be trusted any more
    }
    c = nullptr;
    VClock::on = false;
    g_hook = nullptr;
    r.count("ops", nops);
    r.count("evictions", nEvict);
    r.count("self_evictions", nSelf);
    r.count("deferred_disposals", nDeferDisp);
    r.count("deferred_seen", nDeferred);
    r.count("replacements", nReplace);
    r.count("expired", nExpire);
    r.count("expired_in_use", nAgePinned);
    r.count("overlapping_pins", nOverlap);
    r.count("many_pins", nMany);
    r.count("unobserved_ops", nBlind);
    r.count("recycled_values", nRecycled);
    r.count("calls_that_evict_64", nMass);
    if (switched) r.count("mode_switches");
    if (noUpd) r.count("with_no_update");
    r.count(lru ? "ends_lru" : "ends_age");
    bool nt = r.prop == "C20" ? nDeferDisp > 0 : r.prop == "C22" ? nEvict > 0 : r.prop == "C24" ? nExpire > 0 : r.prop == "C25" ? nOverlap > 0 || switched : nReplace > 0 && nDeferred > 0;
    r.eval(fnv(trace), nt);
    if (nt && r.samples.size() < 2) r.sample(trace);
  }

  // Forgets disposed values, but a few: stillInUse must deny them.
  std::vector<std::unique_ptr<Val>> graveyard;
  void prune() {
    if (vals.size() < 40 + 2 * static_cast<size_t>(nkeys)) return;
    std::vector<std::unique_ptr<Val>> keep;
    for (auto& x : vals) {
      if (x->disposed && keep.size() < vals.size() - 12) graveyard.push_back(std::move(x));
      else keep.push_back(std::move(x));
    }
    vals.swap(keep);
  }
};

}  // namespace
