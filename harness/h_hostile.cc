// C12 memory safety under hostile input, C13 nothing left behind: batches of
// generated and mutated inputs go through every entry point of the library.
// Violations of C12 are sanitizer (or valgrind) reports, escaped exceptions,
// aborts and hangs; C13 compares the heap before and after, and looks at the
// error queue after each call.
#include <chrono>

#include "gen.h"
#include "jwt_verify_lib/check_audience.h"
#include "jwt_verify_lib/struct_utils.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define VH_HEAP 1
#endif
#endif

using namespace vh;
using google::jwt_verify::CheckAudience;
using google::jwt_verify::StructUtils;
using google::jwt_verify::verifyJwt;
using google::jwt_verify::verifyJwtWithoutTimeChecking;

namespace {

const std::vector<std::string>& dict() {
  static const auto* v = new std::vector<std::string>{
      ".", "..", "...", "=", "==", "\"", "{", "}", "[", "]", ":", ",", "\\u0000", "\\ud800", std::string(1, 0), "\xff", "\n", "-----BEGIN PUBLIC KEY-----\n", "-----END PUBLIC KEY-----\n",
      "-----BEGIN CERTIFICATE-----\n", "\n-----END CERTIFICATE-----\n", "keys", "kty", "\"alg\":\"", "\"alg\":\"R\"", "\"alg\":\"E\"", "\"alg\":\"\"", "\"kid\":null", "RS", "PS", "ES", "HS", "EC", "RSA", "oct", "OKP", "P-521", "Ed25519",
      "1e309", "-1", "18446744073709551616", "null", "true", "eyJ", "e30", "e30.e30.e30", "AQAB", "http://", "https://", "https:", "://", "/", "//", "exp", "nbf", "aud"};
  return *v;
}

std::string mutate(Rng& g, std::string s, const std::vector<std::string>& others) {
  int n = g.chance(1, 2) ? 1 : g.range(1, 12);
  while (n--) {
    size_t L = s.size();
    switch (g.below(11)) {
      case 0: if (L) s[g.below(L)] = static_cast<char>(g.u64()); break;
      case 1: if (L) s[g.below(L)] ^= static_cast<char>(1 << g.below(8)); break;
      case 2: if (L) s.erase(g.below(L), 1 + g.below(g.chance(1, 3) ? L : 4)); break;
      case 3: s.insert(g.below(L + 1), g.pick(dict())); break;
      case 4: if (L) s.resize(g.below(L)); break;
      case 5: if (L) { size_t i = g.below(L); s.insert(g.below(L), s.substr(i, 1 + g.below(40))); } break;
      case 6: if (!others.empty()) { const std::string& o = g.pick(others); s = s.substr(0, g.below(L + 1)) + o.substr(g.below(o.size() + 1)); } break;
      case 7: s.insert(g.below(L + 1), g.bytes(1 + g.below(5))); break;
      case 8: if (L) { size_t i = g.below(L); s.insert(i, std::string(g.chance(1, 20) ? 5000 : g.below(60), s[i])); } break;
      case 9: { size_t d = s.find(g.chance(1, 2) ? '.' : '"', g.below(L + 1)); if (d != std::string::npos) s.erase(d, 1); break; }
      default: if (L > 3) std::swap(s[g.below(L)], s[g.below(L)]); break;
    }
  }
  if (s.size() > (1 << 20)) s.resize(1 << 20);
  return s;
}

std::string signedTok(Rng& g) {
  std::string alg = g.pick(allAlgs());
  const Key* k;
  do k = g.pick(pool().good); while (!fits(alg, *k));
  J h = genHeader(g, alg);
  if (g.chance(1, 3)) h.set("kid", J::str(g.chance(1, 2) ? "k1" : genStr(g, 8)));
  std::string d = b64(render(h, &g)) + "." + b64(render(genPayload(g), &g));
  std::string sig = sign(alg, *k, d);
  switch (g.below(12)) {
    case 0: sig.resize(g.below(600)); break;
    case 1: sig = g.bytes(g.below(200)); break;
    case 2: if (!sig.empty()) sig[g.below(sig.size())] ^= 1; break;
    case 3: sig += g.bytes(g.below(3)); break;
    case 4: std::fill(sig.begin(), sig.end(), g.chance(1, 2) ? 0 : -1); break;
    case 5: if (!sig.empty()) sig.pop_back(); break;
    case 6: sig.resize(1 + g.below(3)); break;
    case 7: if (!sig.empty()) sig.resize(g.below(sig.size())); break;
  }
  if (alg == "EdDSA" && g.chance(1, 3)) sig.resize(g.range(60, 68));
  return d + "." + b64(sig);
}
std::string goodJwks(Rng& g) {
  J l = J::list({}), d = J::obj();
  for (int n = g.range(1, 6); n--;) {
    const Key* k = g.pick(pool().good);
    l.l.push_back(jwk(*k, g.chance(1, 2) ? "k1" : genStr(g, 5), g.pick(jwkAlgs(*k)), g.chance(1, 2), g.chance(1, 3)));
  }
  return render(d.set("keys", l), &g);
}

struct Plan {
  std::vector<std::string> toks, docs, pems, auds, names, strs;
  std::vector<int> docTypes;
  std::vector<uint64_t> nums;
  uint64_t lruSeed = 0;
  bool touch = false;
  std::string str() const {
    std::string s;
    for (auto& t : toks) s += "token: " + t.substr(0, 20000) + "\n  hex " + hex(t, 3000) + "\n";
    for (size_t i = 0; i < docs.size(); i++) s += "document of type " + std::to_string(docTypes[i]) + ": " + docs[i].substr(0, 20000) + "\n  hex " + hex(docs[i], 6000) + "\n";
    for (auto& t : pems) s += "pem: " + t.substr(0, 20000) + "\n  hex " + hex(t, 3000) + "\n";
    for (auto& t : auds) if (s.size() < 4000000) s += "audience: " + hex(t, 2000) + "\n";
    for (auto& t : names) s += "name: " + hex(t, 2000) + "\n";
    return s;
  }
};

Plan genPlan(Rng& g, bool light) {
  Plan p;
  for (int n = g.range(2, 5); n--;) {
    std::string t;
    switch (g.below(6)) {
      case 0: case 1: case 2: t = signedTok(g); break;
      case 3: t = genToken(g, g.range(0, 3)).text; break;
      case 4: t = g.chance(1, 2) ? g.bytes(g.below(100)) : g.pick(dict()) + g.pick(dict()) + g.pick(dict()); break;
      default: { T x = genToken(g, 0); mutateText(g, x); t = x.text; }
    }
    if (g.chance(1, 3)) t = mutate(g, t, p.toks);
    if (g.chance(1, 2000) && !light) t = std::string(1 << 20, "A.{\""[g.below(4)]);
    p.toks.push_back(t);
  }
  for (int n = g.range(1, 4); n--;) {
    std::string d;
    int type = g.chance(1, 8) ? 1 : 0;  // Type: JWKS, PEM
    switch (g.below(6)) {
      case 0: case 1: d = goodJwks(g); break;
      case 2: d = genJwksDoc(g); break;
      case 3: d = genX509Doc(g); break;
      case 4: { std::string w; d = genPem(g, &w); type = g.chance(1, 4) ? 0 : 1; break; }
      default: d = g.chance(1, 2) ? breakJson(g, goodJwks(g)) : "{\"keys\":[" + render(genEntry(g, g.range(0, 2))) + "]}";
    }
    if (g.chance(1, 3)) d = mutate(g, d, p.docs);
    p.docs.push_back(d);
    p.docTypes.push_back(type);
  }
  for (int n = g.range(1, 3); n--;) {
    std::string w, d = genPem(g, &w);
    if (g.chance(1, 3)) d = mutate(g, d, p.pems);
    p.pems.push_back(d);
  }
  for (int n = g.range(0, 6); n--;) {
    std::string a = g.pick(std::vector<std::string>{"", "/", "http://", "https://", "http://x/", "https://x", "x", "h", "http:", "https:/", "http:///"});
    if (g.chance(1, 2)) a = mutate(g, a, {});
    p.auds.push_back(a);
  }
  for (int n = g.range(1, 5); n--;) {
    std::string a = g.pick(std::vector<std::string>{"", ".", "..", "a", "a.b", "iss", "nested.a", "aud", "a..b", ".a", "a.", "exp", "iss.x"});
    if (g.chance(1, 3)) a = mutate(g, a, {});
    if (g.chance(1, 200)) a = std::string(10000, '.');
    p.names.push_back(a);
  }
  for (int i = 0; i < 6; i++) p.strs.push_back(g.chance(1, 2) ? g.pick(allAlgs()) : g.chance(1, 2) ? g.pick(badAlgs()) : genStr(g, 8));
  static const uint64_t N[] = {0, 1, 60, 1501281058, 1ULL << 32, 1ULL << 53, 1ULL << 63, UINT64_MAX, UINT64_MAX - 60};
  for (int i = 0; i < 4; i++) p.nums.push_back(N[g.below(9)]);
  p.lruSeed = g.u64();
  return p;
}

// One of the inputs becomes millions of pieces long: what recurses or keeps a
// frame, a bit or a small counter per piece shows it.
void giant(Rng& g, Plan& p) {
  auto rep = [&](const std::string& u) {
    size_t n = (g.chance(1, 2) ? 700000 : 1500000) / (u.size() > 8 ? u.size() / 2 : 1);
    std::string r;
    r.reserve(n * u.size());
    while (n--) r += u;
    return r;
  };
  std::string unit = g.pick(std::vector<std::string>{".", "a.", "/", "[", "{\"a\":", "\"", "\\\\", "A", "=", " ", "-", "\n", "http://", "\xff", std::string(1, 0), "0", "\\u0000", "],[", "AAAA", "iss."});
  switch (g.below(9)) {
    case 0: p.names.push_back(rep(g.chance(2, 3) ? (g.chance(1, 2) ? "." : "a.") : unit)); if (g.chance(1, 2)) p.names.back() = "nested" + p.names.back(); break;
    case 1: p.toks[0] = rep(unit); if (g.chance(1, 2)) p.toks[0] = "e30." + p.toks[0] + ".AAAA"; break;
    case 2: {  // a token with a giant part, signed or not
      J h = genHeader(g, "HS256"), q = genPayload(g);
      J big = J::str(rep(g.chance(1, 2) ? "x" : "\xc3\xa9"));
      J many = J::list({});
      for (int i = 0; i < 60000; i++) many.l.push_back(g.chance(1, 2) ? J::str("a") : J::str(""));
      switch (g.below(5)) {
        case 0: h.set("kid", big); break;
        case 1: q.set(g.pick(std::vector<std::string>{"iss", "sub", "jti", "aud", "other"}), big); break;
        case 2: q.set("aud", many); break;
        case 3: q.set("aud", J::list({big, big})); break;
        default: for (int i = 0; i < 60000; i++) q.set("m" + std::to_string(i), J::str("v")); break;
      }
      std::string d = b64(render(h, nullptr)) + "." + b64(render(q, nullptr));
      p.toks[0] = d + "." + b64(g.chance(1, 2) ? signHmac(pool().oct[0]->secret, 256, d) : g.chance(1, 2) ? std::string(1000000, 'x') : std::string("x"));
      break;
    }
    case 3: p.docs[0] = g.chance(1, 2) ? rep(unit) : "{\"keys\":[" + rep(unit) + "]}"; break;
    case 4: {  // many keys, or a giant member
      J d = J::obj(), l = J::list({});
      int n = g.chance(1, 2) ? 1 : 20000;
      J big = J::str(rep("A"));
      for (int i = 0; i < n; i++) {
        J e = J::obj();
        std::string kty = g.pick(std::vector<std::string>{"oct", "oct", "OKP", "EC", "RSA", "x"});
        e.set("kty", J::str(kty)).set("k", n == 1 ? big : J::str("AAAA")).set("kid", n == 1 && g.chance(1, 2) ? big : J::str("k"));
        if (n == 1) e.set("x", big).set("y", big).set("crv", J::str(kty == "OKP" ? "Ed25519" : "P-256")).set("e", J::str("AQAB"));
        l.l.push_back(e);
      }
      p.docs[0] = render(d.set("keys", l), nullptr);
      p.docTypes[0] = 0;
      break;
    }
    case 5: {  // many certificates, or a giant one
      J d = J::obj();
      const std::string& crt = g.pick(pool().crt)->crt;
      if (g.chance(1, 2)) for (int i = 0; i < 300; i++) d.set("c" + std::to_string(i), J::str(crt));
      else d.set("c", J::str(g.chance(1, 2) ? crt + rep("\n") : "-----BEGIN CERTIFICATE-----\n" + rep("AAAA\n") + "-----END CERTIFICATE-----\n"));
      p.docs[0] = render(d, nullptr);
      p.docTypes[0] = 0;
      break;
    }
    case 6: p.pems[0] = g.chance(1, 2) ? rep(unit) : "-----BEGIN PUBLIC KEY-----\n" + rep(g.chance(1, 2) ? "AAAA\n" : "A") + "\n-----END PUBLIC KEY-----\n"; p.docs[0] = p.pems[0]; p.docTypes[0] = 1; break;
    case 7: p.auds.push_back(rep(g.chance(2, 3) ? (g.chance(1, 2) ? "/" : "http://") : unit)); break;
    default: for (int i = 0; i < 100000; i++) p.auds.push_back(i % 3 ? "https://a/" : std::to_string(i)); break;
  }
}

struct CacheVal { int x; };
typedef google::simple_lru_cache::SimpleLRUCache<std::string, CacheVal> Lru;

// Makes every field decide a branch, for valgrind to see what is uninitialised.
volatile uint64_t g_sink;
void use(const Jwt& j) {
  uint64_t x = j.iat_ ^ j.nbf_ ^ j.exp_;
  for (auto* s : {&j.alg_, &j.kid_, &j.iss_, &j.sub_, &j.jti_, &j.jwt_, &j.header_str_, &j.header_str_base64url_, &j.payload_str_, &j.payload_str_base64url_, &j.signature_})
    for (char c : *s) x = x * 31 + c;
  for (auto& a : j.audiences_)
    for (char c : a) x = x * 31 + c;
  if (x == 0x123456789) g_sink++;
}
void use(const Jwks& k) {
  uint64_t x = static_cast<uint64_t>(k.getStatus());
  for (auto& p : k.keys()) {
    for (auto* s : {&p->kid_, &p->kty_, &p->alg_, &p->crv_, &p->hmac_key_, &p->okp_key_raw_})
      for (char c : *s) x = x * 31 + c;
    x += (p->rsa_ != nullptr) + 2 * (p->ec_key_ != nullptr);
  }
  if (x == 0x123456789) g_sink++;
}

// Calls the library, and nothing of the harness that leaves memory behind.
// `after` is told the name of each call that has returned.
template <class F>
void exec(const Plan& p, F after) {
  std::vector<Jwt> jwts(p.toks.size());
  for (size_t i = 0; i < p.toks.size(); i++) {
    Status s = jwts[i].parseFromString(p.toks[i]);
    after("parseFromString");
    if (p.touch) use(jwts[i]);
    google::jwt_verify::getStatusString(s);
  }
  {
    Jwt c(jwts[0]);
    after("Jwt(const Jwt&)");
    c = jwts.back();
    after("Jwt::operator=");
    c = *&c;
    c.parseFromString(p.toks[0]);
    after("parseFromString");
    c.parseFromString(c.jwt_);
    after("parseFromString");
  }
  std::vector<JwksPtr> sets;
  for (size_t i = 0; i < p.docs.size(); i++) {
    sets.push_back(Jwks::createFrom(p.docs[i], p.docTypes[i] ? Jwks::PEM : Jwks::JWKS));
    after("createFrom");
  }
  sets.push_back(Jwks::createFromPem(p.pems[0], p.strs[0], p.strs[1]));
  after("createFromPem");
  for (size_t i = 0; i < p.pems.size(); i++) {
    sets[i % sets.size()]->addKeyFromPem(p.pems[i], p.strs[2 + i % 4], i % 2 ? "" : p.strs[3]);
    after("addKeyFromPem");
  }
  if (p.touch)
    for (auto& s : sets) use(*s);
  CheckAudience ca(p.auds);
  std::vector<std::string> some(p.auds.begin(), p.auds.begin() + p.auds.size() / 2);
  for (auto& s : sets) {
    for (auto& j : jwts) {
      verifyJwtWithoutTimeChecking(j, *s);
      after("verifyJwtWithoutTimeChecking");
    }
  }
  for (size_t i = 0; i < jwts.size(); i++) {
    const Jwks& s = *sets[i % sets.size()];
    verifyJwt(jwts[i], s);
    after("verifyJwt");
    verifyJwt(jwts[i], s, p.nums[0]);
    verifyJwt(jwts[i], s, p.nums[0], p.nums[1]);
    after("verifyJwt(now, skew)");
    verifyJwt(jwts[i], s, p.auds);
    verifyJwt(jwts[i], s, some, p.nums[2]);
    after("verifyJwt(audiences)");
    jwts[i].verifyTimeConstraint(p.nums[2], p.nums[3]);
    ca.areAudiencesAllowed(jwts[i].audiences_);
    StructUtils su(jwts[i].payload_pb_);
    for (auto& n : p.names) {
      std::string str;
      double d = 0;
      uint64_t u = 0;
      bool b = false;
      std::vector<std::string> l;
      const google::protobuf::Value* v;
      su.GetString(n, &str);
      su.GetDouble(n, &d);
      su.GetUInt64(n, &u);
      su.GetBoolean(n, &b);
      su.GetStringList(n, &l);
      su.GetValue(n, v);
      if (d == 12.25 || u == 99 || b) g_sink++;
    }
    after("StructUtils");
  }
  ca.areAudiencesAllowed(some);
  CheckAudience(some).areAudiencesAllowed(p.auds);
  after("areAudiencesAllowed");
  {
    Rng g(p.lruSeed);
    Lru c(g.range(1, 6));
    if (g.chance(1, 3)) c.setAgeBasedEviction(g.chance(1, 2) ? -1 : 1e-6);
    else if (g.chance(1, 2)) c.setMaxIdleSeconds(1e-6);
    std::vector<std::pair<std::string, CacheVal*>> pins;
    for (int n = g.range(5, 40); n--;) {
      std::string k = "key-with-a-long-name-" + std::to_string(g.below(4));
      switch (g.below(6)) {
        case 0: c.insert(k, new CacheVal(), 1 + g.below(2)); break;
        case 1: { CacheVal* v = new CacheVal(); c.insertPinned(k, v, 1); pins.push_back({k, v}); break; }
        case 2: if (CacheVal* v = c.lookup(k)) pins.push_back({k, v}); break;
        case 3: if (!pins.empty()) { c.release(pins.back().first, pins.back().second); pins.pop_back(); } break;
        case 4: c.remove(k); break;
        case 5: if (g.chance(1, 3)) c.removeAll(); else { Lru::ScopedLookup l(&c, k); } break;
      }
    }
    while (!pins.empty()) { c.release(pins.back().first, pins.back().second); pins.pop_back(); }
    c.clear();
  }
  after("cache");
}

struct Null { void operator()(const char*) const {} };

size_t heap() {
#ifdef VH_HEAP
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

uint64_t g_cases = 0, g_grew = 0, g_counted = 0;

void one(Run& r) {
  Rng g = r.caseRng();
  bool light = r.cases < 2000 && r.prop == "C12";
  Plan p = genPlan(g, light);
  p.touch = r.prop == "C12";
  if (r.prop == "C12" && !light && g.chance(1, 400)) { giant(g, p); r.count("giant"); }
  std::string all = p.str();
  ERR_clear_error();
  try {
    if (r.prop == "C12") {
      auto t0 = std::chrono::steady_clock::now();
      uint64_t calls = 0;
      exec(p, [&](const char*) { calls++; });
      r.count("calls", calls);
      double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
      if (s > 5) r.count("slow_batches");
    } else {
      std::string left;
      uint64_t calls = 0;
      exec(p, [&](const char* what) {
        calls++;
        if (ERR_peek_error() && left.empty()) left = what;
        if (!left.empty()) ERR_clear_error();
      });
      r.count("calls", calls);
      if (!left.empty()) r.fail("C13/error-queue/" + left, left + " returned with the crypto error queue not empty", all);
      size_t h0 = heap();
      exec(p, Null());
      size_t h1 = heap();
      if (h1 != h0) {
        // Filled some cache, or leaks?
        exec(p, Null());
        size_t h2 = heap();
        exec(p, Null());
        size_t h3 = heap();
        exec(p, Null());
        size_t h4 = heap();
        r.count("heap_changed");
        if (h4 > h3 && h3 > h2) r.fail("C13/leak", "each repetition of the same calls leaves " + std::to_string(h4 - h3) + " bytes", all);
      }
      // Does every new input leave something?
      Plan q = genPlan(g, true);
      size_t a = heap();
      exec(q, Null());
      size_t b = heap();
      ERR_clear_error();
      g_cases++;
      if (g_cases > 60) {
        g_counted++;
        if (b > a) g_grew++;
        if (g_counted == 120) {
          if (g_grew > 40) r.fail("C13/growth", "the heap grew with " + std::to_string(g_grew) + " of 120 batches of new inputs", q.str());
          r.count("growth_windows");
          g_counted = g_grew = 0;
        }
      }
    }
  } catch (const std::exception& e) {
    r.fail("exception", std::string("an exception escaped: ") + e.what(), all);
  } catch (...) {
    r.fail("exception", "an exception escaped", all);
  }
  r.eval(fnv(all));
  r.count("tokens", p.toks.size());
  r.count("documents", p.docs.size() + p.pems.size());
  if (r.samples.size() < 2) r.sample(all);
}
}  // namespace

int main(int argc, char** argv) {
  return runMain(argc, argv, [] {
    const char* d = getenv("VERIF_KEYS");
    pool().load(d ? d : "/verif/keys", R().seed, R().cases < 2000);
  }, one);
}
