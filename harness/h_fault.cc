// C15 allocation failures in the crypto library. The library's allocation
// hooks are ours: for each call under test the allocations it makes are
// counted, then the call is repeated once per allocation with that one
// failing, and with that one and all later ones failing.
#include <malloc.h>

#include "gen.h"
#include "openssl/rsa.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define VH_HEAP 1
#endif
#endif

using namespace vh;
using google::jwt_verify::verifyJwt;
using google::jwt_verify::verifyJwtWithoutTimeChecking;

namespace {
uint64_t g_allocs, g_failAt, g_failed;  // g_failAt 0: none
bool g_on, g_allLater;
}  // namespace

// BoringSSL calls these where they are defined.
extern "C" {
void* OPENSSL_memory_alloc(size_t n) {
  if (g_on) {
    g_allocs++;
    if (g_failAt && (g_allocs == g_failAt || (g_allLater && g_allocs > g_failAt))) {
      g_failed++;
      return nullptr;
    }
  }
  return malloc(n);
}
void OPENSSL_memory_free(void* p) { free(p); }
size_t OPENSSL_memory_get_size(void* p) { return malloc_usable_size(p); }
}

namespace {
struct Fault {
  Fault(uint64_t at, bool all) {
    g_allocs = g_failed = 0;
    g_failAt = at;
    g_allLater = all;
    g_on = true;
  }
  ~Fault() { g_on = false; }
};

char* g_note;
void note(const std::string& s) {
  if (g_note) snprintf(g_note, 60000, "%s", s.c_str());
}

std::string serKey(const Jwks::Pubkey& k) {
  std::string r = k.kid_ + "," + k.kty_ + "," + k.alg_ + "," + k.crv_ + "," + hex(k.hmac_key_) + "," + hex(k.okp_key_raw_);
  if (k.rsa_) {
    const BIGNUM *n, *e;
    RSA_get0_key(k.rsa_.get(), &n, &e, nullptr);
    r += " rsa " + (n ? hex(bnStr(n)) : std::string("none")) + "/" + (e ? hex(bnStr(e)) : std::string("none"));
  }
  if (k.ec_key_) {
    const EC_GROUP* g = EC_KEY_get0_group(k.ec_key_.get());
    const EC_POINT* p = EC_KEY_get0_public_key(k.ec_key_.get());
    uint8_t b[200];
    size_t n = g && p ? EC_POINT_point2oct(g, p, POINT_CONVERSION_UNCOMPRESSED, b, sizeof b, nullptr) : 0;
    r += " ec " + std::to_string(g ? EC_GROUP_get_curve_name(g) : 0) + "/" + hex(std::string(reinterpret_cast<char*>(b), n));
  }
  return r;
}
std::vector<std::string> keysOf(const Jwks& s) {
  std::vector<std::string> v;
  for (auto& k : s.keys()) v.push_back(serKey(*k));
  return v;
}
// Is every key of a one of b, as often?
bool contained(std::vector<std::string> a, std::vector<std::string> b) {
  for (auto& x : a) {
    auto i = std::find(b.begin(), b.end(), x);
    if (i == b.end()) return false;
    b.erase(i);
  }
  return true;
}
std::vector<std::string> sorted(std::vector<std::string> v) {
  std::sort(v.begin(), v.end());
  return v;
}

size_t heap() {
#ifdef VH_HEAP
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

struct Result {
  Status st;
  std::vector<std::string> keys;
};

std::vector<SetKey> pickKeys(Rng& g) {
  std::vector<SetKey> v;
  for (int n = g.range(1, 4); n--;) {
    SetKey s;
    s.k = g.pick(pool().good);
    s.hasKid = g.chance(1, 2);
    s.kid = "k" + std::to_string(g.below(3));
    s.hasAlg = g.chance(1, 4);
    auto a = jwkAlgs(*s.k);
    s.alg = a.empty() ? "" : g.pick(a);
    s.route = static_cast<Route>(g.below(4));
    v.push_back(s);
  }
  legalizeSet(v, g);
  return v;
}

void one(Run& r) {
  Rng g = r.caseRng();
  std::function<Result()> call;
  std::string kind, text;
  JwksPtr set;
  Jwt jwt;
  bool x509 = false;
  int kindN = static_cast<int>(g.below(10));
  if (kindN < 4) {
    kind = "verify";
    auto v = pickKeys(g);
    std::string alg, docs;
    const Key* k = nullptr;
    for (int t = 0; t < 40 && !k && !v.empty(); t++) {
      auto& s = g.pick(v);
      alg = g.pick(allAlgs());
      if (fits(alg, *s.k)) k = s.k;
    }
    if (k && sign(alg, *k, "x").empty()) k = nullptr;  // PSS needs more room
    if (!k) { k = pool().oct[0]; alg = "HS256"; SetKey s; s.k = k; v.push_back(s); legalizeSet(v, g); }
    set = buildSet(v, nullptr, &docs);
    J h = J::obj();
    h.set("alg", J::str(alg));
    std::string d = b64(render(h)) + "." + b64(render(J::obj()));
    std::string sig = sign(alg, *k, d), what = "good";
    switch (g.below(10)) {
      case 8: case 9: {  // by the same key with another alg
        std::string b;
        for (int t = 0; t < 40; t++) { b = g.pick(allAlgs()); if (b != alg && fits(b, *k) && (t > 20 || (b[0] != alg[0] && b.substr(2) == alg.substr(2)))) break; b.clear(); }
        std::string w = b.empty() ? "" : sign(b, *k, d);
        if (!w.empty()) { sig = w; what = "of " + b; r.count("signatures_of_another_alg"); }
        break;
      }
      case 6: case 7: {
        std::string w;
        for (int t = 0; t < 20 && w.empty(); t++) w = weakSig(g, alg, *k, d);
        if (!w.empty()) { sig = w; what = "of another digest"; r.count("weak_signatures"); }
        break;
      }
      case 0: sig[g.below(sig.size())] ^= static_cast<char>(1 << g.below(8)); what = "bit"; break;
      case 1: sig = g.bytes(sig.size()); what = "random"; break;
      case 2: sig = std::string(sig.size(), 0); what = "zero"; break;
      case 3: {  // signed with another key or for another payload
        d = b64(render(h)) + "." + b64("{\"sub\":\"x\"}");
        what = "other-payload";
        break;
      }
    }
    text = "verify, signature " + what + ", set " + vh::describe(v) + "\n" + d + "." + b64(sig);
    kind += ":" + alg;
    if (jwt.parseFromString(d + "." + b64(sig)) != Status::Ok) r.harnessError("token does not parse: " + text);
    call = [&] { return Result{verifyJwtWithoutTimeChecking(jwt, *set), {}}; };
  } else if (kindN < 6) {
    kind = "import-jwks";
    if (g.chance(1, 4)) text = genJwksDoc(g);
    else {
      J l = J::list({}), d = J::obj();
      for (auto& s : pickKeys(g)) if (s.route == Route::JWKS) l.l.push_back(jwk(*s.k, s.kid, s.alg, s.hasKid, s.hasAlg, s.crv));
      if (l.l.empty()) l.l.push_back(jwk(*pool().byName("rsa2048_1"), "r", "", true, false));
      text = render(d.set("keys", l));
    }
    call = [&] { auto s = Jwks::createFrom(text, Jwks::JWKS); return Result{s->getStatus(), keysOf(*s)}; };
  } else if (kindN == 6) {
    kind = "import-x509";
    x509 = true;
    text = genX509Doc(g);
    call = [&] { auto s = Jwks::createFrom(text, Jwks::JWKS); return Result{s->getStatus(), keysOf(*s)}; };
  } else {
    std::string w;
    text = genPem(g, &w);
    if (kindN == 7) {
      kind = "import-pem";
      call = [&] { auto s = Jwks::createFrom(text, Jwks::PEM); return Result{s->getStatus(), keysOf(*s)}; };
    } else if (kindN == 8) {
      kind = "import-pem-alg";
      call = [&] { auto s = Jwks::createFromPem(text, "k", "RS256"); return Result{s->getStatus(), keysOf(*s)}; };
    } else {
      kind = "add-pem";
      std::string first = g.pick(pool().ec)->pem;
      call = [&text, first] {
        bool on = g_on;
        g_on = false;
        auto s = Jwks::createFrom(first, Jwks::PEM);
        g_on = on;
        Status st = s->addKeyFromPem(text, "k", "");
        g_on = false;
        Result res{st, keysOf(*s)};
        g_on = on;
        return res;
      };
    }
  }
  // keysOf() allocates too: not under a fault.
  auto run = [&](uint64_t at, bool all) {
    Fault f(at, all);
    return call();
  };
  Result base = call();
  uint64_t n;
  Result counted;
  {
    Fault f(0, false);
    counted = call();
    n = g_allocs;
  }
  r.count("calls:" + kind);
  r.count("allocations", n);
  std::vector<std::string> bk = base.keys;
  uint64_t step = n > 400 ? n / 400 + 1 : 1;
  for (uint64_t k = 1; k <= n; k += step) {
    for (bool all : {false, true}) {
      std::string in = kind + ", allocation " + std::to_string(k) + " of " + std::to_string(n) + (all ? " and all later ones" : "") + " fail(s)\n" + text;
      note(in);
      ERR_clear_error();
      size_t h0 = heap();
      Result f = run(k, all);
      uint64_t failed = g_failed;
      if (r.prop == "C13") {
        if (ERR_peek_error()) {
          r.fail("C13/error-queue/fault/" + kind, "the call returned with the crypto error queue not empty", in);
          h0 = SIZE_MAX;
        }
        ERR_clear_error();
        f.keys.clear();
        f.keys.shrink_to_fit();
        size_t h1 = heap();
        if (h1 > h0) {  // cached, or lost?
          for (int i = 0; i < 3; i++) run(k, all);
          ERR_clear_error();
          size_t h2 = heap();
          for (int i = 0; i < 3; i++) run(k, all);
          ERR_clear_error();
          size_t h3 = heap();
          r.count("heap_changed");
          if (h3 > h2 && h2 > h1) r.fail("C13/leak/fault/" + kind, "each repetition of the call leaves " + std::to_string((h3 - h2) / 3) + " bytes", in);
        }
        r.count("faulted_calls");
        r.eval(fnv(in));
        continue;
      }
      if (!failed) r.count("fault_not_reached");
      r.count(all ? "faults:persistent" : "faults:single");
      r.eval(fnv(in));
      r.count(f.st == base.st ? "outcome:same" : f.st == Status::Ok ? "outcome:ok" : "outcome:failed");
      if (kind.compare(0, 6, "verify") == 0) {
        if (f.st == Status::Ok && base.st != Status::Ok) r.fail("C15/accepted/" + kind, "a token is accepted that is rejected without the fault (" + statusName(base.st) + ")", in);
      } else if (!contained(f.keys, bk)) {
        std::string got;
        for (auto& x : f.keys) got += "\n got " + x;
        for (auto& x : bk) got += "\n without the fault " + x;
        r.fail("C15/key/" + kind, "a key results that does not without the fault:" + got, in);
      }
      for (int again = 0; again < 1; again++) {
        Result l = call();
        if ((x509 ? (l.st == Status::Ok) != (base.st == Status::Ok) : l.st != base.st) || sorted(l.keys) != sorted(bk)) {
          r.fail("C15/later/" + kind, "after the fault the same call gives " + statusName(l.st) + ", before it gave " + statusName(base.st), in);
        }
      }
    }
  }
  note("");
  if (r.samples.size() < 2) r.sample(kind + " with " + std::to_string(n) + " allocations\n" + text);
}
}  // namespace

int main(int argc, char** argv) {
  return runMain(argc, argv, [] {
    const char* d = getenv("VERIF_KEYS");
    pool().load(d ? d : "/verif/keys", R().seed, true);
    std::string f = R().outdir + "/note." + std::to_string(R().shard);
    int fd = open(f.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, 65536) == 0) g_note = static_cast<char*>(mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  }, one);
}
