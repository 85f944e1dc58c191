// C27 no effects but the result; C28 results depend on the arguments only.
//
// C27: in a forked process whose system calls other than those for memory,
// clocks, random bytes and locks are trapped by a seccomp filter, a plan of
// calls is run for the first time in that process. A trapped call is an effect
// on the outside; in addition the environment, the locale, the floating point
// mode, the standard streams' buffers, the rand() sequence, and all the
// arguments are compared before and after.
//
// C28: each call of a plan is made in a process of its own that never made
// another (forked from one that never calls the library), and also in this
// process, after all the calls of this and earlier plans, in another order,
// several times, with errno, crypto error queue, environment, locale and
// working directory set at random. The results are compared.
#include <errno.h>
#include <fenv.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <locale.h>
#include <malloc.h>
#include <signal.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <ucontext.h>

#include <iostream>
#include <locale>

#include "calls.h"
#include "openssl/err.h"

using namespace vh;
using namespace calls;
extern char** environ;

// What the environment holds under any name the calls may ask for: nothing, or
// a text of the process's choice. Asking is counted.
namespace {
int g_env = -1;
uint64_t g_asked = 0;
const char* const kEnvText[] = {"", "0", "1", "true", "yes", "off", "3600", "-1", "debug", "/tmp", "a,b", "HS256", "none", "*", "99999999999"};
const int kEnvs = sizeof kEnvText / sizeof *kEnvText;
char* env(const char* name) {
  g_asked++;
  size_t n = strlen(name);
  for (char** e = environ; e && *e; e++) if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  return g_env < 0 ? nullptr : const_cast<char*>(kEnvText[g_env]);
}
}  // namespace
extern "C" {
__attribute__((visibility("default"))) char* getenv(const char* n) noexcept { return env(n); }
__attribute__((visibility("default"))) char* secure_getenv(const char* n) noexcept { return env(n); }
}

namespace {

struct Shm {
  volatile uint64_t state;  // 1 started, 2 filter on, 3 done
  volatile uint64_t ops;
  volatile int64_t nr, arg0;
  char text[400];
  char what[400];
  volatile uint64_t digest;
};
Shm* m = nullptr;
template <class T>
T* shared() {
  void* p = mmap(nullptr, sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) R().harnessError("mmap");
  return static_cast<T*>(p);
}

// ---- the plan: some calls, and calls that differ from them in little -------
struct Work {
  Plan p;
  std::vector<Op> ops;
  std::string text;
};

std::string sibling(Rng& g, const std::string& s, const std::vector<std::string>& others) {
  std::string r = s;
  if (r.empty()) return r;
  switch (g.below(6)) {
    case 0: r[g.below(r.size())] ^= 1; break;
    case 1: {  // other signature
      size_t d = r.rfind('.');
      const std::string& o = others.empty() ? r : g.pick(others);
      size_t e = o.rfind('.');
      if (d != std::string::npos && e != std::string::npos) r = r.substr(0, d) + o.substr(e);
      break;
    }
    case 2: {  // other payload
      size_t a = r.find('.'), b = r.rfind('.');
      const std::string& o = others.empty() ? r : g.pick(others);
      size_t c = o.find('.'), d = o.rfind('.');
      if (a < b && b != std::string::npos && c < d && d != std::string::npos) r = r.substr(0, a) + o.substr(c, d - c) + r.substr(b);
      break;
    }
    case 3: r[r.size() - 1 - g.below(std::min<size_t>(r.size(), 8))] ^= static_cast<char>(1 << g.below(5)); break;
    case 4: r += static_cast<char>(32 + g.below(90)); break;
    default: if (r.size() > 2) std::swap(r[g.below(r.size())], r[g.below(r.size())]); break;
  }
  return r;
}

// Another document for the same kids: the same entries with other keys.
std::string jwksOf(Rng& g, const std::vector<SetKey>& set, bool otherKeys) {
  J l = J::list({}), d = J::obj();
  for (auto& s : set) {
    if (s.route != Route::JWKS || !s.junk.empty()) continue;
    const Key* k = s.k;
    if (otherKeys)
      for (int t = 0; t < 20; t++) {
        const Key* c = g.pick(pool().good);
        if (c->t == k->t && c != k && (c->t != KT::EC || c->nid == k->nid)) { k = c; break; }
      }
    l.l.push_back(jwk(*k, s.kid, "", s.hasKid, false));
  }
  return render(d.set("keys", l));
}

Work genWork(Rng& g) {
  Work w;
  w.p = calls::genPlan(g);
  if (w.p.sets.empty() || w.p.toks.empty()) {
    w.p.cold = false;
    w.p.sets = {someKeys(g), someKeys(g)};
    w.p.toks.clear();
    for (int n = g.range(1, 3); n--;) w.p.toks.push_back(wellSigned(g, g.pick(w.p.sets)));
  }
  for (auto& t : w.p.ops) for (auto& o : t) if (w.ops.size() < 10 && g.chance(1, 2)) w.ops.push_back(o);
  if (w.ops.empty()) w.ops.push_back(w.p.ops[0][0]);
  for (size_t i = 0, n = w.ops.size(); i < n && w.ops.size() < 16; i++) {
    Op o = w.ops[i];
    if (o.kind == 8 && o.m) {  // from a map: breaking one entry makes the reported defect depend on the map's order
      o.a = static_cast<int>(g.below(90));
    } else if (o.kind == 8) {
      const auto& s = g.pick(w.p.sets);
      std::string d = jwksOf(g, s, false);
      if (d.size() > 20) { o.text = d; Op o2 = o; o2.text = jwksOf(g, s, true); w.ops.push_back(o2); }
      else o.text = sibling(g, o.text, {});
    } else if (!o.text.empty()) {
      o.text = sibling(g, o.text, w.p.toks);
    } else if (o.kind == 10 || (o.kind == 1 && g.chance(1, 2))) {
      // Times near those of a token, and the same ones shifted.
      Op& was = w.ops[i];
      if (g.chance(3, 4)) {
        Parsed q = oracleParse(w.p.toks[static_cast<size_t>(o.a) % w.p.toks.size()]);
        was.m = g.chance(1, 2) ? g.below(200) : 60;
        was.n = (g.chance(1, 4) ? q.nbf - was.m : q.exp + was.m) + g.below(3) - 1;
      }
      o = was;
      uint64_t d = g.chance(1, 3) ? 1 : g.chance(1, 2) ? was.m : 1 + g.below(300);
      switch (g.below(6)) {
        case 0: o.n += d; break;
        case 1: o.n -= d; break;
        case 2: o.m += d; break;
        case 3: o.m -= d; break;
        case 4: o.n += d; o.m -= d; break;
        default: o.n -= d; o.m += d;
      }
      if (g.chance(1, 2)) { Op o2 = was; o2.n += o.n - was.n ? 0 : 1; o2.m = was.m + was.n - o2.n; w.ops.push_back(o2); }
      if (g.chance(1, 4)) o.a = static_cast<int>(g.below(90));
    } else {
      o.n ^= 1;
      o.b = static_cast<int>(g.below(8));
    }
    w.ops.push_back(o);
  }
  // Shared tokens that differ in little.
  if (g.chance(1, 2)) w.p.toks.push_back(sibling(g, g.pick(w.p.toks), w.p.toks));
  for (auto& t : w.p.toks) w.text += "token: " + t + "\n";
  for (auto& s : w.p.sets) w.text += "set: " + vh::describe(s) + "\n";
  for (auto& o : w.ops) w.text += " [" + calls::describe(o) + "]\n";
  return w;
}

// The calls that read the system clock; their results are not compared.
void clockCalls(const Shared& sh, const Plan& p) {
  for (auto& j : sh.jwts)
    for (auto& k : sh.sets) {
      (void)verifyJwt(j, *k);
      if (!p.auds.empty()) (void)verifyJwt(j, *k, p.auds[0]);
    }
}

// ---- C27 -------------------------------------------------------------------
void onSys(int, siginfo_t* si, void* uc) {
  auto* c = static_cast<ucontext_t*>(uc);
  m->nr = si->si_syscall;
  m->arg0 = c->uc_mcontext.gregs[REG_RDI];
  if (si->si_syscall == SYS_write) {
    const char* b = reinterpret_cast<const char*>(c->uc_mcontext.gregs[REG_RSI]);
    size_t n = static_cast<size_t>(c->uc_mcontext.gregs[REG_RDX]);
    memcpy(m->text, b, n < 300 ? n : 300);
  } else if (si->si_syscall == SYS_writev) {
    const struct iovec { void* p; size_t n; }* v = reinterpret_cast<const iovec*>(c->uc_mcontext.gregs[REG_RSI]);
    memcpy(m->text, v->p, v->n < 300 ? v->n : 300);
  } else if (si->si_syscall == SYS_openat) {
    strncpy(m->text, reinterpret_cast<const char*>(c->uc_mcontext.gregs[REG_RSI]), 300);
  }
  _exit(77);
}

bool filterOn() {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSys;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGSYS, &sa, nullptr);
#define ALLOW(nr) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nr, 0, 1), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)
  static struct sock_filter f[] = {
      BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
      ALLOW(SYS_brk), ALLOW(SYS_munmap), ALLOW(SYS_mremap), ALLOW(SYS_madvise), ALLOW(SYS_mprotect), ALLOW(SYS_futex), ALLOW(SYS_clock_gettime), ALLOW(SYS_gettimeofday),
      ALLOW(SYS_time), ALLOW(SYS_getrandom), ALLOW(SYS_sched_yield), ALLOW(SYS_rt_sigreturn), ALLOW(SYS_exit), ALLOW(SYS_exit_group), ALLOW(SYS_getpid), ALLOW(SYS_gettid),
      // Anonymous mappings.
      BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_mmap, 0, 3),
      BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[4])),
      BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 0xffffffff, 0, 1),
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
      BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP)};
  static struct sock_fprog p = {sizeof f / sizeof f[0], f};
  return prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0;
}

struct Comma : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\3"; }
};

std::string processState() {
  std::string r = "env:";
  for (char** e = environ; *e; e++) r += std::string(*e) + "\n";
  r += std::string("locale:") + setlocale(LC_ALL, nullptr) + "/" + std::locale().name();
  r += " round:" + std::to_string(fegetround());
  r += " streams:" + std::to_string(std::cout.flags()) + "," + std::to_string(std::cerr.flags()) + "," + std::to_string(std::cout.rdstate()) + "," + std::to_string(std::cerr.rdstate());
  r += std::string(" handlers:") + std::to_string(reinterpret_cast<uintptr_t>(std::get_terminate())) + "," + std::to_string(reinterpret_cast<uintptr_t>(std::get_new_handler()));
  return r;
}

void c27(Run& r) {
  if (!m) m = shared<Shm>();
  Rng g = r.caseRng();
  Work w = genWork(g);
  memset(m, 0, sizeof *m);
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) r.harnessError("fork");
  if (pid == 0) {
    Work copy = w;
    m->state = 1;
    // Settings that are not those of a new process.
    if (g.chance(1, 2)) setlocale(LC_ALL, "C.utf8");
    if (g.chance(1, 3)) std::locale::global(std::locale(std::locale::classic(), new Comma));
    if (g.chance(1, 2)) setenv(g.chance(1, 2) ? "TZ" : "LC_NUMERIC", "x", 1);
    if (g.chance(1, 4)) fesetround(FE_UPWARD);
    if (g.chance(1, 2)) std::cerr.setf(std::ios::hex | std::ios::showbase);
    if (g.chance(1, 2)) std::set_new_handler([] { _exit(79); });
    srand(12345);
    srand48(777);
    int r1 = rand();
    long r2 = lrand48();
    srand(12345);
    srand48(777);
    std::string before = processState();
    if (!filterOn()) _exit(78);
    m->state = 2;
    {
      Shared sh;
      build(w.p, &sh);
      std::string s0 = sh.ser(false);
      for (auto& o : w.ops) {
        (void)runOp(o, sh, w.p);
        m->ops++;
      }
      clockCalls(sh, w.p);
      if (sh.ser(false) != s0) strcpy(m->what, "the shared tokens and key sets changed");
    }
    for (size_t i = 0; i < w.ops.size(); i++)
      if (w.ops[i].text != copy.ops[i].text || w.ops[i].t2 != copy.ops[i].t2 || w.ops[i].t3 != copy.ops[i].t3) strcpy(m->what, "a text passed to a call changed");
    for (size_t i = 0; i < w.p.toks.size(); i++) if (w.p.toks[i] != copy.p.toks[i]) strcpy(m->what, "a token text passed to a call changed");
    for (size_t i = 0; i < w.p.auds.size(); i++) if (w.p.auds[i] != copy.p.auds[i]) strcpy(m->what, "an audience passed to a call changed");
    std::string after = processState();
    if (after != before) {
      size_t d = 0;
      while (d < after.size() && d < before.size() && after[d] == before[d]) d++;
      snprintf(m->what, sizeof m->what, "the state of the process changed: \"%.120s\" became \"%.120s\"", before.c_str() + (d > 20 ? d - 20 : 0), after.c_str() + (d > 20 ? d - 20 : 0));
    }
    if (rand() != r1 || lrand48() != r2) strcpy(m->what, "the calls used or reset the process's pseudo-random sequence");
    fflush(nullptr);
    std::cout.flush();
    std::cerr.flush();
    std::clog.flush();
    m->state = 3;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 78) r.harnessError("no seccomp filters here");
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
    r.fail("C27/syscall/" + std::to_string(m->nr), "after " + std::to_string(m->ops) + " calls, a call made system call " + std::to_string(m->nr) + " (first argument " + std::to_string(m->arg0) + ") " + std::string(m->text), w.text);
  } else if (st != 0 || m->state != 3) {
    fprintf(stderr, "status %d, state %d\n%s\n", st, static_cast<int>(m->state), w.text.c_str());
    abort();
  } else if (m->what[0]) {
    r.fail(std::string("C27/state/") + std::string(m->what).substr(0, 30), m->what, w.text);
  }
  r.count("calls", m->ops);
  r.count("filtered_processes");
  for (auto& o : w.ops) r.count(std::string("op:") + opName(o.kind));
  r.eval(fnv(w.text));
  if (r.samples.size() < 2) r.sample(w.text);
}

// ---- C28 -------------------------------------------------------------------
struct Fresh { volatile uint64_t d[24]; volatile uint64_t n; };
Fresh* fr = nullptr;
int toZ[2], fromZ[2];

// Signatures are random: both processes take those of the first.
std::vector<std::string*> texts(Work& w) {
  std::vector<std::string*> v;
  for (auto& t : w.p.toks) v.push_back(&t);
  for (auto& o : w.ops) for (auto* s : {&o.text, &o.t2, &o.t3}) v.push_back(s);
  return v;
}
bool all(int fd, char* p, size_t n, bool out) {
  while (n) {
    ssize_t k = out ? write(fd, p, n) : read(fd, p, n);
    if (k <= 0) return false;
    p += k;
    n -= static_cast<size_t>(k);
  }
  return true;
}

// Runs for each case number received each call in a process of its own.
[[noreturn]] void zygote() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  uint64_t c;
  while (read(toZ[0], &c, 8) == 8) {
    R().cur = c;
    Rng g = R().caseRng();
    Work w = genWork(g);
    char ok = 'y';
    for (auto* s : texts(w)) {
      uint64_t n;
      if (!all(toZ[0], reinterpret_cast<char*>(&n), 8, false)) _exit(0);
      s->resize(n);
      if (!all(toZ[0], &(*s)[0], n, false)) _exit(0);
    }
    for (size_t i = 0; i < w.ops.size(); i++) {
      fr->d[i] = 0;
      pid_t pid = fork();
      if (pid == 0) {
        Shared sh;
        build(w.p, &sh);
        fr->d[i] = runOp(w.ops[i], sh, w.p);
        _exit(0);
      }
      int st = 0;
      while (pid > 0 && waitpid(pid, &st, 0) < 0) {}
      if (pid < 0 || st != 0) ok = 'n';
    }
    if (write(fromZ[1], &ok, 1) != 1) break;
  }
  _exit(0);
}


double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

// Leaves garbage where a call's frames and blocks will be.
__attribute__((noinline, optnone)) void scribble(Rng& g) {
  char junk[48 * 1024];
  memset(junk, static_cast<int>(g.below(256)), sizeof junk);
  __asm__ volatile("" : : "r"(junk) : "memory");
  mallopt(M_PERTURB, g.chance(1, 3) ? 0 : static_cast<int>(g.below(256)));
}

void disturb(Rng& g) {
  scribble(g);
  g_env = g.chance(1, 2) ? static_cast<int>(g.below(kEnvs)) : -1;
  switch (g.below(7)) {
    case 0: errno = static_cast<int>(g.below(130)); break;
    case 1: for (int n = g.range(1, 20); n--;) ERR_put_error(static_cast<int>(g.below(30)), 0, static_cast<int>(g.range(1, 200)), "x", 1); break;
    case 2: { static const char* n[] = {"TZ", "LANG", "LC_ALL", "JWT", "DEBUG", "HOME"}; const char* v = n[g.below(6)]; g.chance(1, 3) ? unsetenv(v) : setenv(v, std::to_string(g.below(3)).c_str(), 1); break; }
    case 3: setlocale(LC_ALL, g.chance(1, 2) ? "C.utf8" : "C"); break;
    case 4: std::locale::global(g.chance(1, 2) ? std::locale(std::locale::classic(), new Comma) : std::locale::classic()); break;
    case 5: srand(static_cast<unsigned>(g.u64())); break;
    default: ERR_clear_error(); errno = 0;
  }
}

void c28(Run& r) {
  Rng g = r.caseRng();
  Work w = genWork(g);
  uint64_t c = r.cur;
  char ok = 0;
  bool sent = write(toZ[1], &c, 8) == 8;
  for (auto* s : texts(w)) {
    uint64_t n = s->size();
    sent = sent && all(toZ[1], reinterpret_cast<char*>(&n), 8, true) && all(toZ[1], &(*s)[0], n, true);
  }
  if (!sent || read(fromZ[0], &ok, 1) != 1) r.harnessError("zygote is gone");
  if (ok != 'y') {
    fprintf(stderr, "a call crashed in a fresh process\n%s\n", w.text.c_str());
    abort();
  }
  Rng q(g.u64() ^ r.seed);
  Shared sh;
  build(w.p, &sh);
  std::vector<size_t> order;
  int reps = q.range(2, 3);
  for (int k = 0; k < reps; k++) for (size_t i = 0; i < w.ops.size(); i++) order.push_back(i);
  q.shuffle(order);
  std::string seq;
  // Now and then one call very often in a row.
  size_t stormAt = q.chance(1, 8) ? q.below(order.size()) : order.size();
  for (size_t pos = 0; pos < order.size(); pos++) {
    size_t i = order[pos];
    if (pos == stormAt) {
      size_t k = q.below(w.ops.size());
      double end = now() + 0.06;
      uint64_t n = 0;
      for (; n < 6000 && (n % 64 || now() < end); n++)
        if (runOp(w.ops[k], sh, w.p) != fr->d[k]) {
          r.fail(std::string("C28/storm/") + opName(w.ops[k].kind), "a call gave another result than in a fresh process when repeated " + std::to_string(n) + " times: call " + std::to_string(k) + " (order: " + seq + "): " + calls::describe(w.ops[k]), w.text);
          break;
        }
      seq += std::to_string(n) + "*" + std::to_string(k) + " ";
      r.count("repeated", n);
      r.count("storms");
    }
    if (q.chance(1, 2)) disturb(q);
    seq += std::to_string(i) + " ";
    bool own = q.chance(1, 4);
    uint64_t d;
    if (own) {  // objects of its own, likely where others were
      Shared s2;
      build(w.p, &s2);
      d = runOp(w.ops[i], s2, w.p);
    } else {
      d = runOp(w.ops[i], sh, w.p);
    }
    r.count(std::string("op:") + opName(w.ops[i].kind));
    r.count("compared");
    if (d != fr->d[i])
      r.fail(std::string("C28/result/") + opName(w.ops[i].kind), "after other calls a call gave another result than in a fresh process: call " + std::to_string(i) + " (order: " + seq + "): " + calls::describe(w.ops[i]), w.text);
  }
  std::locale::global(std::locale::classic());
  setlocale(LC_ALL, "C");
  g_env = -1;
  r.count("fresh_processes", w.ops.size());
  r.eval(fnv(w.text));
  if (r.samples.size() < 2) r.sample(w.text + "order: " + seq);
}

}  // namespace

int main(int argc, char** argv) {
  return runMain(argc, argv, [] {
    const char* d = getenv("VERIF_KEYS");
    pool().load(d ? d : "/verif/keys", R().seed, true);
    if (R().prop == "C28") {
      fr = shared<Fresh>();
      if (pipe(toZ) || pipe(fromZ)) R().harnessError("pipe");
      pid_t pid = fork();
      if (pid < 0) R().harnessError("fork");
      if (pid == 0) {
        close(toZ[1]);
        close(fromZ[0]);
        zygote();
      }
      close(toZ[0]);
      close(fromZ[1]);
    }
  }, [](Run& r) { r.prop == "C27" ? c27(r) : c28(r); });
}
