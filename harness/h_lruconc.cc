// C29: several caches used by several threads at once, each cache under a lock
// of its own (or used by one thread only). Every call is logged, under the
// lock, with all that can be observed of it; afterwards a fresh process makes
// the calls of the log again in one thread, cache by cache, and the
// observations are compared. The threads run under ThreadSanitizer, with
// delays injected at allocations, and at full speed. Time stands still but at
// the barriers between the rounds.
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>

#include <algorithm>
#include <atomic>
#include <list>
#include <memory>
#include <mutex>
#include <thread>

#include "clock.h"
#include "common.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VH_TSAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif
#endif

using namespace vh;
using namespace google::simple_lru_cache;

namespace {
const int kMaxThreads = 6, kMaxCaches = 6, kRounds = 4;
thread_local uint64_t t_rng = 0;
std::atomic<int> g_denom{64};
void delay() {
  if (!t_rng) return;
  uint64_t x = splitmix(t_rng);
  if (x % g_denom.load(std::memory_order_relaxed)) return;
  x >> 32 & 1 ? (void)sched_yield() : [](int n) { for (volatile int i = 0; i < n; i++) {} }((x >> 40) % 3000);
}
void onMalloc(const volatile void*, size_t) { delay(); }
void onFree(const volatile void*) {}

// One call, as logged.
struct Ev {
  uint8_t op, key, round, thread;
  uint16_t val;     // the value meant: its number within the cache
  uint16_t units;
  uint64_t seen;    // digest of what was observed
};
const int kMaxEv = 1200;
struct Shm {
  uint32_t n[kMaxCaches];
  Ev ev[kMaxCaches][kMaxEv];
  uint64_t switches;  // calls whose predecessor on the cache came from another thread
  volatile uint64_t done;
};

struct CVal {
  uint16_t id;
  std::vector<uint16_t>* gone;
};
struct Sink {
  virtual ~Sink() {}
};
template <class K> struct Mk;
template <> struct Mk<int> { static int key(int k) { return k; } };
template <> struct Mk<std::string> { static std::string key(int k) { return (k & 1 ? "a-key-too-long-for-the-string-itself-" : "k") + std::to_string(k); } };
struct CDel { void operator()(CVal* v) const { v->gone->push_back(v->id); delete v; } };

// A cache of one of several types behind one face.
struct Face {
  virtual ~Face() {}
  virtual void apply(const Ev& e) = 0;
  std::vector<uint16_t> gone;       // what the last call disposed of
  std::vector<CVal*> all;           // by number; nullptr: disposed of
  struct Pin { int key; uint16_t val; bool noOrder; };
  std::vector<Pin> pins;
  bool lru = true, limited = false;
  uint64_t seen = 0;
  uint16_t found = 0;               // the value a lookup found, plus 1
};
template <class K, class C>
struct FaceOf : Face {
  std::unique_ptr<C> c;
  template <class... A>
  explicit FaceOf(A... a) : c(new C(a...)) {}
  ~FaceOf() override {
    for (auto& p : pins) c->release(Mk<K>::key(p.key), all[p.val]);
    c->clear();
  }
  void apply(const Ev& e) override {
    gone.clear();
    found = 0;
    uint64_t h = 7;
    auto add = [&](int64_t x) { h = fnv(&x, 8, h); };
    SimpleLRUCacheOptions no;
    no.set_update_eviction_order(false);
    K k = Mk<K>::key(e.key);
    auto fresh = [&] { CVal* v = new CVal{static_cast<uint16_t>(all.size()), &gone}; all.push_back(v); return v; };
    switch (e.op) {
      case 0: c->insert(k, fresh(), e.units); break;
      case 1: { CVal* v = fresh(); pins.push_back({e.key, v->id, false}); c->insertPinned(k, v, e.units); break; }
      case 2: case 3: {
        CVal* v = e.op == 2 ? c->lookup(k) : c->lookupWithOptions(k, no);
        if (v) { found = v->id + 1; pins.push_back({e.key, v->id, e.op == 3}); }
        break;
      }
      case 4: {  // release
        for (size_t i = 0; i < pins.size(); i++)
          if (pins[i].key == e.key && pins[i].val == e.val) {
            bool n = pins[i].noOrder;
            pins.erase(pins.begin() + i);
            if (n) c->releaseWithOptions(k, all[e.val], no);
            else c->release(k, all[e.val]);
            break;
          }
        break;
      }
      case 5: c->remove(k); break;
      case 6: c->removeAll(); break;
      case 7: c->removeUnpinned(); break;
      case 8: c->setMaxSize(e.units); break;
      case 9: c->removeExpiredEntries(); break;
      case 10: c->updateSize(k, nullptr, e.units); break;
      case 11: { typename C::ScopedLookup s(c.get(), k); found = s.found() ? s.value()->id + 1 : 0; break; }
      case 12: {
        std::vector<int64_t> ids;
        for (auto it = c->begin(); it != c->end(); ++it) ids.push_back(it->second->id * 1000003LL + it.last_use_time() % 1000003);
        std::sort(ids.begin(), ids.end());
        for (auto i : ids) add(i);
        break;
      }
      case 13: { std::string o; c->debugOutput(&o); add(static_cast<int64_t>(std::count(o.begin(), o.end(), '\n'))); break; }
      case 14: add(c->stillInUse(k)); add(lru ? c->getLastUseTime(k) : c->getInsertionTime(k)); break;
      case 15: {
        bool wantLru = e.units & 1;
        double s = (e.units >> 1) - 1.0;
        if (s >= 0 && limited && wantLru != lru) s = -1;  // not allowed
        lru = wantLru;
        limited = s >= 0;
        if (wantLru) c->setMaxIdleSeconds(s);
        else c->setAgeBasedEviction(s);
        break;
      }
      default: add(c->ageOfLRUItemInMicroseconds());
    }
    // Which of several values go first is decided by the order of eviction;
    // a call that drops all may do so in any order.
    if (e.op == 6 || e.op == 7) std::sort(gone.begin(), gone.end());
    for (auto g : gone) { add(g + 100000); all[g] = nullptr; }
    add(found);
    add(c->size()); add(c->entries()); add(c->pinnedSize()); add(c->deferredSize()); add(c->deferredEntries()); add(c->maxSize());
    h = fnv(c->summary(), h);
    seen = h;
  }
};
typedef SimpleLRUCacheWithDeleter<int, CVal, CDel, absl::Hash<int>> IntCache;
typedef SimpleLRUCacheWithDeleter<std::string, CVal, CDel, absl::Hash<std::string>> StrCache;
Face* makeCache(int type, int64_t max) {
  if (type == 0) return new FaceOf<int, IntCache>(max);
  return new FaceOf<std::string, StrCache>(max);
}

struct Plan {
  int threads, caches, ops;
  int type[kMaxCaches], owner[kMaxCaches];  // owner -1: shared
  int64_t max[kMaxCaches];
  int maker[kMaxCaches], ender[kMaxCaches];
  int64_t advance[kRounds];
  uint64_t seed;
};
Plan genPlan(Rng& g) {
  Plan p;
  p.threads = g.range(2, kMaxThreads);
  p.caches = g.range(1, kMaxCaches);
  p.ops = g.range(5, 45);  // per thread and round
  for (int c = 0; c < p.caches; c++) {
    p.type[c] = static_cast<int>(g.below(2));
    p.owner[c] = g.chance(1, 2) ? -1 : static_cast<int>(g.below(p.threads));
    p.max[c] = g.chance(1, 4) ? 1000 : static_cast<int64_t>(g.below(12));
    p.maker[c] = g.chance(1, 2) ? -1 : static_cast<int>(g.below(p.threads));
    p.ender[c] = g.chance(1, 2) ? -1 : static_cast<int>(g.below(p.threads));
  }
  for (auto& a : p.advance) a = g.pick(std::vector<int64_t>{0, 1, 1000000, 999999, 2500000});
  p.seed = g.u64();
  return p;
}

void threaded(const Plan& p, Shm* m, uint64_t seed) {
  Face* face[kMaxCaches] = {};
  std::mutex mu[kMaxCaches];
  int lastThread[kMaxCaches];
  std::fill(lastThread, lastThread + kMaxCaches, -1);
  std::atomic<uint64_t> switches{0};
  for (int c = 0; c < p.caches; c++) if (p.maker[c] < 0) face[c] = makeCache(p.type[c], p.max[c]);
  pthread_barrier_t bar;
  pthread_barrier_init(&bar, nullptr, p.threads);
  uint64_t mode = seed % 4;
  g_denom = mode == 0 ? 1000000 : mode == 1 ? 8 : 64;
  std::vector<std::thread> ts;
  for (int t = 0; t < p.threads; t++)
    ts.emplace_back([&, t] {
      Rng g(p.seed + 77 * t);
      for (int c = 0; c < p.caches; c++) if (p.maker[c] == t) face[c] = makeCache(p.type[c], p.max[c]);
      std::vector<int> mine;
      for (int c = 0; c < p.caches; c++) if (p.owner[c] < 0 || p.owner[c] == t) mine.push_back(c);
      pthread_barrier_wait(&bar);
      t_rng = seed * 1000 + t + 1;
      for (int round = 0; round < kRounds; round++) {
        for (int i = 0; i < p.ops && !mine.empty(); i++) {
          int c = g.pick(mine);
          std::unique_lock<std::mutex> l(mu[c], std::defer_lock);
          if (p.owner[c] < 0) l.lock();
          Face& f = *face[c];
          if (m->n[c] >= kMaxEv) continue;
          Ev e;
          memset(&e, 0, sizeof e);
          e.round = static_cast<uint8_t>(round);
          e.thread = static_cast<uint8_t>(t);
          e.key = static_cast<uint8_t>(g.below(6));
          e.units = static_cast<uint16_t>(g.below(5));
          e.op = static_cast<uint8_t>(g.below(28));
          static const uint8_t map[28] = {0, 0, 0, 0, 1, 1, 2, 2, 2, 2, 3, 4, 4, 4, 4, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
          e.op = map[e.op];
          if ((e.op == 6 || e.op == 15 || e.op == 8) && !g.chance(1, 4)) e.op = 16;
          if (e.op == 8) e.units = static_cast<uint16_t>(g.below(20));
          if (f.pins.size() > 10) e.op = 4;
          if (e.op == 4) {
            if (f.pins.empty()) e.op = 2;
            else { auto& q = g.pick(f.pins); e.key = static_cast<uint8_t>(q.key); e.val = q.val; }
          }
          f.apply(e);
          e.seen = f.seen;
          m->ev[c][m->n[c]++] = e;
          if (p.owner[c] < 0 && lastThread[c] != t) { if (lastThread[c] >= 0) switches.fetch_add(1, std::memory_order_relaxed); lastThread[c] = t; }
          l = std::unique_lock<std::mutex>();
          if (mode) delay();
        }
        if (pthread_barrier_wait(&bar) == PTHREAD_BARRIER_SERIAL_THREAD) VClock::ns += p.advance[round] * 1000;
        pthread_barrier_wait(&bar);
      }
      t_rng = 0;
      for (int c = 0; c < p.caches; c++) if (p.ender[c] == t) { delete face[c]; face[c] = nullptr; }
    });
  for (auto& t : ts) t.join();
  for (int c = 0; c < p.caches; c++) delete face[c];
  m->switches = switches;
  m->done = 1;
}

// Makes the calls of the log again; writes what is seen into `out`.
void replay(const Plan& p, const Shm* log, Shm* out) {
  Face* face[kMaxCaches] = {};
  for (int c = 0; c < p.caches; c++) face[c] = makeCache(p.type[c], p.max[c]);
  uint32_t at[kMaxCaches] = {};
  for (int round = 0; round < kRounds; round++) {
    for (int c = 0; c < p.caches; c++)
      for (; at[c] < log->n[c] && log->ev[c][at[c]].round == round; at[c]++) {
        const Ev& e = log->ev[c][at[c]];
        if (e.op == 4 && (e.val >= face[c]->all.size() || !face[c]->all[e.val])) goto next;  // differs already
        face[c]->apply(e);
        out->ev[c][at[c]] = e;
        out->ev[c][at[c]].seen = face[c]->seen;
        out->n[c] = at[c] + 1;
        if (face[c]->seen != e.seen) goto next;
        continue;
      next:
        at[c] = log->n[c];
      }
    VClock::ns += p.advance[round] * 1000;
  }
  out->done = 1;
}

Shm* shm() {
  void* m = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) R().harnessError("mmap");
  return static_cast<Shm*>(m);
}
template <class F>
int inChild(F f) {
  pid_t pid = fork();
  if (pid < 0) R().harnessError("fork");
  if (pid == 0) {
    VClock::ns = 1700000000000000000;
    VClock::on = true;
    f();
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  return st;
}

const char* opName(int o) {
  static const char* n[] = {"insert", "insertPinned", "lookup", "lookup-no-order", "release", "remove", "removeAll", "removeUnpinned", "setMaxSize", "removeExpiredEntries", "updateSize", "ScopedLookup", "iterate", "debugOutput", "stillInUse/times", "set-limit", "ageOfLRUItem"};
  return n[o];
}
std::string describe(const Ev& e) {
  return "t" + std::to_string(e.thread) + ":" + opName(e.op) + "(k" + std::to_string(e.key) + (e.op == 4 ? ",v" + std::to_string(e.val) : "") + ",u" + std::to_string(e.units) + ")@" + std::to_string(e.round);
}

void one(Run& r) {
  static Shm *a = shm(), *b = shm();
  Rng g = r.caseRng();
  Plan p = genPlan(g);
  uint64_t seed = g.u64() | 1;
  memset(a, 0, sizeof *a);
  memset(b, 0, sizeof *b);
  std::string text = std::to_string(p.threads) + " threads";
  for (int c = 0; c < p.caches; c++) text += "; cache " + std::to_string(c) + (p.owner[c] < 0 ? " shared" : " of thread " + std::to_string(p.owner[c])) + " max " + std::to_string(p.max[c]);
  text += "\n";
  int st = inChild([&] { threaded(p, a, seed); });
  for (int c = 0; c < p.caches; c++) {
    text += "cache " + std::to_string(c) + ":";
    for (uint32_t i = 0; i < a->n[c]; i++) text += " " + describe(a->ev[c][i]);
    text += "\n";
  }
  if (st || !a->done) {
    fprintf(stderr, "threads: status %d\n%s\n", st, text.substr(0, 20000).c_str());
    fflush(stderr);
    abort();
  }
  st = inChild([&] { replay(p, a, b); });
  if (st || !b->done) {
    fprintf(stderr, "replay in one thread: status %d\n%s\n", st, text.substr(0, 20000).c_str());
    fflush(stderr);
    abort();
  }
  uint64_t h = 1, calls = 0;
  int shared = 0, alone = 0;
  for (int c = 0; c < p.caches; c++) {
    p.owner[c] < 0 ? shared++ : alone++;
    calls += a->n[c];
    for (uint32_t i = 0; i < a->n[c]; i++) {
      const Ev& e = a->ev[c][i];
      h = fnv(&e, 8, h);
      r.count(std::string("op:") + opName(e.op));
      if (i >= b->n[c] || b->ev[c][i].seen != e.seen) {
        r.fail(std::string("C29/") + opName(e.op), "cache " + std::to_string(c) + ", call " + std::to_string(i) + " " + describe(e) + ": what was observed differs from the same calls made in one thread", text);
        break;
      }
    }
  }
  r.count("calls", calls);
  r.count("handovers_between_threads", a->switches);
  r.count("shared_caches", shared);
  r.count("caches_of_one_thread", alone);
  r.count("threads", p.threads);
  r.eval(h, p.caches > 1 || a->switches > 0);
  if (r.samples.size() < 2) r.sample(text);
}
}  // namespace

int main(int argc, char** argv) {
#ifdef VH_TSAN
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
  return runMain(argc, argv, [] {}, one);
}
