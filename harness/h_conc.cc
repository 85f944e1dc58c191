// C14 concurrent use. Each case forks twice from a process that has never
// called the library: once to run a plan of calls in one thread, and once to
// run it in several threads under ThreadSanitizer, with delays injected at
// allocations and between calls. The results of each call are compared, the
// shared objects are serialised before and after, and the times of all calls
// are recorded to see which of them overlapped.
#include <sched.h>
#include <signal.h>
#include <sys/wait.h>
#include <time.h>

#include <algorithm>
#include <atomic>
#include <new>
#include <thread>

#include "calls.h"

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define VH_TSAN 1
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif
#endif

using namespace vh;
using namespace calls;

namespace {
thread_local uint64_t t_rng = 0;  // 0: no delays in this thread
std::atomic<int> g_denom{64};
void delay() {
  if (!t_rng) return;
  uint64_t x = splitmix(t_rng);
  if (x % g_denom.load(std::memory_order_relaxed)) return;
  x >> 32 & 1 ? (void)sched_yield() : [](int n) { for (volatile int i = 0; i < n; i++) {} }((x >> 40) % 3000);
}
void onMalloc(const volatile void*, size_t) { delay(); }
void onFree(const volatile void*) {}

struct Rec { uint64_t digest, start, end; };
struct Shm {
  Rec rec[kThreads][kOps];
  uint64_t start, before, after;
  volatile uint64_t done;
};

uint64_t nowNs() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<uint64_t>(t.tv_sec) * 1000000000 + t.tv_nsec;
}

void child(const Plan& p, Shm* m, bool threads, uint64_t seed) {
  std::unique_ptr<Shared> owner(new Shared);
  Shared& sh = *owner;
  // The shared objects may be made, and destroyed, by threads that end.
  if (threads && (seed >> 3 & 1)) std::thread([&] { build(p, &sh); }).join();
  else build(p, &sh);
  m->start = fnv(sh.ser(true));
  m->before = fnv(sh.ser(false));
  if (!threads) {
    for (size_t t = 0; t < p.ops.size(); t++)
      for (size_t i = 0; i < p.ops[t].size(); i++) m->rec[t][i].digest = runOp(p.ops[t][i], sh, p);
  } else {
    std::atomic<size_t> ready{0};
    std::vector<std::thread> ts;
    uint64_t mode = seed % 4;
    g_denom = mode == 0 ? 1000000 : mode == 1 ? 16 : 100;
    for (size_t t = 0; t < p.ops.size(); t++)
      ts.emplace_back([&, t] {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < p.ops.size()) {}
        t_rng = seed * 1000 + t + 1;
        for (size_t i = 0; i < p.ops[t].size(); i++) {
          Rec& r = m->rec[t][i];
          if (mode) delay();
          r.start = nowNs();
          r.digest = runOp(p.ops[t][i], sh, p);
          r.end = nowNs();
        }
        t_rng = 0;
      });
    for (auto& t : ts) t.join();
  }
  m->after = fnv(sh.ser(false));
  if (threads && (seed >> 4 & 1)) std::thread([&] { owner.reset(); }).join();
  owner.reset();
  m->done = 1;
}

Shm* shm() {
  void* m = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) R().harnessError("mmap");
  return static_cast<Shm*>(m);
}

int forkRun(const Plan& p, Shm* m, bool threads, uint64_t seed) {
  memset(m, 0, sizeof *m);
  pid_t pid = fork();
  if (pid < 0) R().harnessError("fork");
  if (pid == 0) {
    child(p, m, threads, seed);
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  return st;
}

void one(Run& r) {
  static Shm *a = shm(), *b = shm();
  Rng g = r.caseRng();
  Plan p = genPlan(g);
  std::string text = p.cold ? "cold start\n" : "";
  for (auto& t : p.toks) text += "token: " + t + "\n";
  for (auto& s : p.sets) text += "set: " + vh::describe(s) + "\n";
  for (size_t t = 0; t < p.ops.size(); t++) {
    text += "thread " + std::to_string(t) + ":";
    for (auto& o : p.ops[t]) text += " [" + describe(o) + "]";
    text += "\n";
  }
  int st = forkRun(p, a, false, 0);
  if (st || !a->done) {
    fprintf(stderr, "one thread: status %d\n%s\n", st, text.c_str());
    abort();
  }
  if (a->before != a->after) r.fail("C14/changed-sequential", "the calls changed a token or key set passed to them", text);
  int rounds = r.thorough() ? 3 : 1;
  while (rounds--) {
    st = forkRun(p, b, true, g.u64() | 1);
    if (st || !b->done) {  // the report is on stderr
      fprintf(stderr, "threads: status %d\n%s\n", st, text.c_str());
      fflush(stderr);
      abort();
    }
    if (b->start != a->start) r.fail("C14/setup", "shared objects differ between two runs", text);
    if (b->before != b->after) r.fail("C14/changed", "concurrent calls changed a token or key set passed to them", text);
    struct E { uint64_t start, end; size_t t; int kind; };
    std::vector<E> ev;
    for (size_t t = 0; t < p.ops.size(); t++)
      for (size_t i = 0; i < p.ops[t].size(); i++) {
        const Op& o = p.ops[t][i];
        r.count(std::string("op:") + opName(o.kind));
        if (a->rec[t][i].digest != b->rec[t][i].digest) r.fail(std::string("C14/result/") + opName(o.kind), "a call gave another result when run concurrently: thread " + std::to_string(t) + ", call " + std::to_string(i) + ": " + describe(o), text);
        ev.push_back({b->rec[t][i].start, b->rec[t][i].end, t, o.kind});
      }
    std::sort(ev.begin(), ev.end(), [](const E& x, const E& y) { return x.start < y.start; });
    uint64_t h = fnv(text), pairs = 0;
    std::set<std::pair<int, int>> kinds;
    for (size_t i = 0; i < ev.size(); i++) {
      uint64_t q[2] = {ev[i].t, static_cast<uint64_t>(ev[i].kind)};
      h = fnv(q, sizeof q, h);
      for (size_t k = i + 1; k < ev.size() && ev[k].start < ev[i].end; k++)
        if (ev[k].t != ev[i].t) {
          pairs++;
          kinds.insert({std::min(ev[i].kind, ev[k].kind), std::max(ev[i].kind, ev[k].kind)});
        }
    }
    r.count("overlapping_pairs", pairs);
    for (auto& k : kinds) if (k.first == k.second || k.first == 0) r.count(std::string("overlap:") + opName(k.first) + "+" + opName(k.second));
    r.count(p.cold ? "cold_cases" : "warm_cases");
    r.count("threads", p.ops.size());
    r.eval(h, pairs > 0);
  }
  if (r.samples.size() < 2) r.sample(text);
}
}  // namespace

int main(int argc, char** argv) {
#ifdef VH_TSAN
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
  return runMain(argc, argv, [] {
    const char* d = getenv("VERIF_KEYS");
    pool().load(d ? d : "/verif/keys", R().seed, true);
  }, one);
}
