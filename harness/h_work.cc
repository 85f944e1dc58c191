// C19 work grows in proportion to the input; C26 the comparison of HMAC
// signatures shows nothing of how much of one is right.
//
// C19: a family of inputs is drawn at random and instantiated at two sizes;
// the calls on both are counted exactly (count.h), and each of the counts may
// grow by no more than 2.5 times as much as the input.
//
// C26: the sequence of control flow edges, the lengths of common prefixes seen
// by libc's comparisons, and the sizes of copies and allocations are hashed
// over a verification; the hashes for wrong signatures of the right length
// must not differ.
#include <sys/resource.h>

#include "count.h"

#include "calls.h"
#include "clock.h"
#include "lru_work.h"

using namespace vh;
using namespace calls;

namespace {

Work measure(const std::function<void()>& f) {
  g_work = Work();
  g_count = true;
  f();
  g_count = false;
  return g_work;
}

std::string times(const std::string& s, size_t n) {
  std::string r;
  r.reserve(s.size() * n);
  while (n--) r += s;
  return r;
}
std::string list(size_t n, const std::function<std::string(size_t)>& f, const std::string& sep = ",") {
  std::string r;
  for (size_t i = 0; i < n; i++) { if (i) r += sep; r += f(i); }
  return r;
}
std::string q(const std::string& s) { std::string r; renderStr(s, nullptr, r); return r; }

// An input of a given scale, the call on it, and its size in bytes.
struct Inst {
  std::function<void()> call;
  uint64_t size = 0;
  std::string text;
};
struct Family {
  std::string name;
  std::function<Inst(size_t)> make;
  size_t base;
};

std::string plainStr(Rng& g, size_t n) {
  std::string r;
  for (size_t i = 0; i < n; i++) r += static_cast<char>("abcdefghijklmnopqrstuvwxyz0123456789-_"[g.below(38)]);
  return r;
}
// A string of n pieces.
std::string pieces(Rng& g, size_t n) {
  std::string a = g.pick(std::vector<std::string>{"a", "/", ".", "=", "\"", "\\", "http://", "https://", "\n", " ", "a/", "é", "-----BEGIN ", std::string(1, 0), "0", "aA", "{", "[", ":", "x.y"}), b = g.chance(1, 2) ? "" : plainStr(g, 1 + g.below(5));
  return times(a + b, n);
}
std::string value(Rng& g) {
  switch (g.below(6)) {
    case 0: return "1";
    case 1: return "true";
    case 2: return "null";
    case 3: return "{\"a\":{\"b\":[1,2]}}";
    case 4: return "[\"x\",2,[]]";
    default: return q(plainStr(g, 8));
  }
}
// A JSON object with one part that grows, among the members of a token.
std::function<std::string(size_t)> growingObject(Rng& g, bool header, std::string* name) {
  uint64_t s = g.u64();
  std::string base = header ? "\"alg\":\"HS256\",\"kid\":\"k1\"" : "\"iss\":\"i\",\"sub\":\"s\",\"exp\":1900000000";
  int w = static_cast<int>(g.below(9));
  std::string field = header ? g.pick(std::vector<std::string>{"kid", "typ", "alg", "x"}) : g.pick(std::vector<std::string>{"iss", "sub", "jti", "aud", "x"});
  *name += (header ? "header/" : "payload/") + std::string(w == 0 ? "string-" + field : w == 1 ? "members" : w == 2 ? "list" : w == 3 ? "aud" : w == 4 ? "spaces" : w == 5 ? "number" : w == 6 ? "objects" : w == 7 ? "escapes" : "same-member");
  return [=](size_t n) {
    Rng r(s);
    std::string b = base;
    auto drop = [&](const std::string& f) { size_t p = b.find("\"" + f + "\""); if (p == std::string::npos) return; size_t e = b.find(',', p); if (e == std::string::npos) b = p ? b.substr(0, p - 1) : ""; else b.erase(p, e + 1 - p); };
    switch (w) {
      case 0: drop(field); return "{" + b + (b.empty() ? "" : ",") + "\"" + field + "\":" + q(pieces(r, n)) + "}";
      case 1: return "{" + list(n, [&](size_t i) { return "\"m" + std::to_string(i) + "\":" + value(r); }) + "," + b + "}";
      case 2: return "{\"x\":[" + list(n, [&](size_t) { return value(r); }) + "]," + b + "}";
      case 3: return "{\"aud\":[" + list(n, [&](size_t i) { return q((i & 1 ? "https://" : "") + plainStr(r, 6)); }) + "]," + b + "}";
      case 4: return "{" + std::string(n * 4, ' ') + b + std::string(n, '\n') + "}";
      case 5: return "{\"x\":" + std::string(n, '1') + "," + b + "}";
      case 6: return "{\"x\":" + list(n, [&](size_t i) { return "{\"y" + std::to_string(i % 7) + "\":[{}]}"; }) + "," + b + "}";
      case 7: return "{\"x\":\"" + times(r.chance(1, 2) ? "\\u00e9" : "\\\"\\n", n) + "\"," + b + "}";
      default: return "{" + list(n, [&](size_t) { return std::string("\"m\":1"); }) + "," + b + "}";
    }
  };
}

// ---- families ----------------------------------------------------------------
Inst parseInst(const std::string& tok) {
  return {[=] { Jwt j; (void)j.parseFromString(tok); }, tok.size(), tok};
}

Family famParse(Rng& g) {
  Family f;
  f.base = 256;
  f.name = "parse/";
  uint64_t s = g.u64();
  switch (g.below(7)) {
    case 0: case 1: case 2: {
      bool header = g.chance(1, 3);
      auto o = growingObject(g, header, &f.name);
      f.make = [=](size_t n) {
        std::string x = b64(o(n));
        return parseInst(header ? x + ".e30.AAAA" : "eyJhbGciOiJIUzI1NiIsImtpZCI6ImsxIn0." + x + ".AAAA");
      };
      break;
    }
    case 3: f.name += "signature"; f.make = [=](size_t n) { Rng r(s); return parseInst("eyJhbGciOiJIUzI1NiJ9.e30." + b64(r.bytes(n * 8))); }; break;
    case 4: { std::string c = g.pick(std::vector<std::string>{".", "..", "a.", "A", "=", "e30.", "-", "\n", "%", std::string(1, 0), "eyJhbGciOiJIUzI1NiJ9."}); f.name += "repeat-" + hex(c); f.make = [=](size_t n) { return parseInst(times(c, n * 4)); }; break; }
    case 5: { int where = static_cast<int>(g.below(3)); std::string c = g.pick(std::vector<std::string>{"=", "A", " ", "\n", "!", "AAAA", "A="}); f.name += "section" + std::to_string(where) + "-" + hex(c);
      f.make = [=](size_t n) { std::string p[3] = {"eyJhbGciOiJIUzI1NiJ9", "e30", "AAAA"}; p[where] += times(c, n * 4); return parseInst(p[0] + "." + p[1] + "." + p[2]); }; break; }
    default: {
      f.name += "copy";
      std::string nm;
      auto o = growingObject(g, false, &f.name);
      f.make = [=](size_t n) {
        auto j = std::make_shared<Jwt>();
        std::string t = "eyJhbGciOiJIUzI1NiIsImtpZCI6ImsxIn0." + b64(o(n)) + ".AAAA";
        j->parseFromString(t);
        return Inst{[=] { Jwt c(*j); Jwt d; d = c; }, t.size(), t};
      };
    }
  }
  return f;
}

std::string bigPem(Rng& g, size_t n, int w) {
  std::string p = g.pick(pool().rsa)->pem;
  switch (w) {
    case 0: return times("junk line\n", n) + p;
    case 1: return times(p, n / 8 + 1);
    case 2: return "-----BEGIN PUBLIC KEY-----\n" + times("AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA\n", n / 4 + 1) + "-----END PUBLIC KEY-----\n";
    case 3: return times("-----BEGIN PUBLIC KEY-----\n", n);
    case 4: return p + times("\n", n * 8);
    case 5: return "-----BEGIN PUBLIC KEY-----\n" + times("Proc-Type: 4\n", n) + "-----END PUBLIC KEY-----\n";
    default: return std::string(n * 8, 'A');
  }
}

Family famImport(Rng& g) {
  Family f;
  f.name = "import/";
  f.base = 64;
  uint64_t s = g.u64();
  auto doc = [](std::string d, Jwks::Type t = Jwks::JWKS) { return Inst{[=] { (void)Jwks::createFrom(d, t); }, d.size(), d}; };
  switch (g.below(8)) {
    case 0: case 1: case 2: {  // entries of some kinds
      int breakage = static_cast<int>(g.below(3));
      bool sameKid = g.chance(1, 2);
      std::vector<std::string> ents;
      std::vector<KT> kinds;
      int m = g.range(1, 3);
      f.name += std::string("entries") + (breakage ? "-broken" : "") + (sameKid ? "-same-kid" : "");
      for (int i = 0; i < m; i++) ents.push_back(render(genEntry(g, breakage)));
      f.make = [=](size_t n) {
        return doc("{\"keys\":[" + list(n, [&](size_t i) {
          std::string e = ents[i % ents.size()];
          if (!sameKid && e.size() > 2) e = "{\"n" + std::to_string(i) + "\":1," + e.substr(1);
          return e;
        }) + "]}");
      };
      break;
    }
    case 3: {
      f.name += "oct-keys";
      f.base = 128;
      f.make = [=](size_t n) { Rng r(s); return doc("{\"keys\":[" + list(n, [&](size_t i) { return "{\"kty\":\"oct\",\"kid\":\"k" + std::to_string(i) + "\",\"k\":\"" + b64(r.bytes(16)) + "\"}"; }) + "]}"); };
      break;
    }
    case 4: {  // one entry that grows
      std::string fld = g.pick(std::vector<std::string>{"kid", "k", "n", "e", "x", "y", "alg", "kty", "crv", "x5c", "members", "use"});
      f.name += "growing-" + fld;
      f.base = 256;
      f.make = [=](size_t n) {
        Rng r(s);
        J e = jwk(*r.pick(r.chance(1, 2) ? pool().oct : pool().rsa), "k1", "", true, false);
        if (fld == "x5c") return doc("{\"keys\":[{\"x5c\":[" + list(n, [](size_t) { return std::string("\"AAAAAAAA\""); }) + "]," + render(e).substr(1) + "]}");
        if (fld == "members") return doc("{\"keys\":[{" + list(n, [](size_t i) { return "\"m" + std::to_string(i) + "\":\"v\""; }) + "," + render(e).substr(1) + "]}");
        size_t k = fld == "n" || fld == "e" || fld == "x" || fld == "y" ? n / 16 + 16 : n * 4;  // numbers: arithmetic on them is not linear
        e.set(fld, J::str(std::string(k, 'A')));
        return doc("{\"keys\":[" + render(e) + "]}");
      };
      break;
    }
    case 5: {  // x509
      f.name += "x509";
      f.base = 24;
      int w = static_cast<int>(g.below(4));
      std::vector<std::string> crt;
      for (int i = 0; i < 3; i++) crt.push_back(q(g.pick(pool().crt)->crt));
      f.name += w == 0 ? "-certs" : w == 1 ? "-broken" : w == 2 ? "-long" : "-junk-members";
      f.make = [=](size_t n) {
        if (w == 2) return doc("{\"kid\":" + q(std::string(kCertPre) + std::string(n * 64, 'A') + kCertSuf) + "}");
        return doc("{" + list(n, [&](size_t i) { return "\"kid" + std::to_string(i) + "\":" + (w == 0 ? crt[i % 3] : w == 1 ? q(std::string(kCertPre) + "AAAA" + kCertSuf) : q("none")); }) + "}");
      };
      break;
    }
    case 6: {
      int w = static_cast<int>(g.below(7));
      f.name += "pem" + std::to_string(w);
      f.base = 128;
      f.make = [=](size_t n) { Rng r(s); return doc(bigPem(r, n, w), Jwks::PEM); };
      break;
    }
    default: {  // many additions to one set
      f.name += "additions";
      // Keys that cost little in themselves show more of the rest.
      bool bad = g.chance(1, 4), cheap = g.chance(1, 2);
      f.base = cheap ? 400 : 64;
      const Key* k = g.pick(cheap ? pool().okp : g.chance(1, 2) ? pool().rsa : pool().ec);
      f.make = [=](size_t n) {
        std::string p = bad ? "-----BEGIN PUBLIC KEY-----\nAAAA\n-----END PUBLIC KEY-----\n" : k->pem;
        return Inst{[=] { JwksPtr set = Jwks::createFromPem(k->pem, "k", ""); for (size_t i = 0; i < n; i++) (void)set->addKeyFromPem(p, "kid", ""); }, n * p.size(), p};
      };
    }
  }
  return f;
}

Family famVerify(Rng& g) {
  Family f;
  f.name = "verify/";
  uint64_t s = g.u64();
  if (g.chance(1, 3)) {  // token grows, one key
    f.base = 256;
    std::string alg = g.pick(allAlgs());
    const Key* k;
    do k = g.pick(pool().good); while (!fits(alg, *k));
    bool sigGrows = g.chance(1, 2);
    f.name += (sigGrows ? "long-signature-" : "long-payload-") + alg;
    f.make = [=](size_t n) {
      Rng r(s);
      std::string d = b64("{\"alg\":\"" + alg + "\"}") + "." + b64("{\"x\":\"" + std::string(sigGrows ? 10 : n * 8, 'a') + "\"}");
      std::string t = d + "." + b64(sigGrows ? r.bytes(n * 8) : sign(alg, *k, d));
      auto j = std::make_shared<Jwt>();
      j->parseFromString(t);
      SetKey sk;
      sk.k = k;
      if (k->t == KT::RSA && !k->jwkOk) sk.route = Route::PEM;
      std::shared_ptr<Jwks> set(buildSet({sk}, nullptr).release());
      return Inst{[=] { (void)verifyJwtWithoutTimeChecking(*j, *set); (void)verifyJwt(*j, *set, std::vector<std::string>{"a"}, 5); }, t.size(), t};
    };
    return f;
  }
  // many keys
  f.base = 32;
  int w = static_cast<int>(g.below(5));
  std::string alg = g.pick(std::vector<std::string>{"HS256", "HS512", "RS256", "PS256", "ES256", "EdDSA"});
  f.name += "keys-" + alg + std::string(w == 0 ? "-other-kid" : w == 1 ? "-same-kid" : w == 2 ? "-no-kid" : w == 3 ? "-other-alg" : "-other-type");
  std::vector<const Key*> ks;
  for (int i = 0; i < 4; i++) { const Key* k; do k = g.pick(pool().good); while (!k->jwkOk || (w == 4 ? typeFits(alg, *k) : !fits(alg, *k))); ks.push_back(k); }
  f.make = [=](size_t n) {
    std::string d = b64("{\"alg\":\"" + alg + "\",\"kid\":\"k0\"}") + ".e30";
    std::string t = d + "." + b64(std::string(alg[0] == 'E' ? 64 : alg[0] == 'H' ? 32 : 256, 'x'));
    auto j = std::make_shared<Jwt>();
    j->parseFromString(t);
    std::string doc = "{\"keys\":[" + list(n, [&](size_t i) {
      auto as = jwkAlgs(*ks[i % 4]);
      return render(jwk(*ks[i % 4], w == 0 ? "k" + std::to_string(i + 1) : "k0", w == 3 ? as.back() : "", w != 2, w == 3 && as.size() > 1)); }) + "]}";
    std::shared_ptr<Jwks> set(Jwks::createFrom(doc, Jwks::JWKS).release());
    return Inst{[=] { (void)verifyJwtWithoutTimeChecking(*j, *set); }, n * 64, doc};
  };
  return f;
}

Family famAudience(Rng& g) {
  Family f;
  f.base = 128;
  uint64_t s = g.u64();
  int w = static_cast<int>(g.below(5));
  static const char* nm[] = {"config", "token", "both", "strings", "all-equal"};
  f.name = std::string("audience/") + nm[w];
  f.make = [=](size_t n) {
    Rng r(s);
    std::vector<std::string> c, t;
    auto aud = [&] { return std::string(r.chance(1, 3) ? "https://" : r.chance(1, 2) ? "http://" : "") + plainStr(r, 8) + (r.chance(1, 3) ? "/" : ""); };
    for (size_t i = 0; i < (w == 0 || w == 2 ? n : 3); i++) c.push_back(aud());
    for (size_t i = 0; i < (w == 1 || w == 2 ? n : 3); i++) t.push_back(aud() + "!");
    if (w == 3) { c.push_back(pieces(r, n * 4)); t.push_back(pieces(r, n * 4) + "!"); }
    if (w == 4) { c.assign(n, "https://a/"); t.assign(n, "https://b/"); }
    uint64_t z = 0;
    for (auto* v : {&c, &t}) for (auto& x : *v) z += x.size() + 8;
    return Inst{[=] { CheckAudience ca(c); (void)ca.areAudiencesAllowed(t); (void)ca.areAudiencesAllowed(t); }, z, ""};
  };
  return f;
}

Family famClaims(Rng& g) {
  Family f;
  f.base = 256;
  uint64_t s = g.u64();
  int w = static_cast<int>(g.below(6));
  static const char* nm[] = {"dots", "long-name", "list", "lookups", "bad-list", "deep"};
  f.name = std::string("claims/") + nm[w];
  f.make = [=](size_t n) {
    Rng r(s);
    auto pb = std::make_shared<PbStruct>();
    std::vector<std::string> names;
    uint64_t z = 0;
    auto& m = *pb->mutable_fields();
    m["a"].mutable_struct_value();
    if (w == 0) names = {times(".", n), times("a.", n), "a." + times("b.", n)};
    if (w == 1) names = {std::string(n * 4, 'a'), std::string(n * 4, 'a') + ".b"};
    if (w == 2 || w == 4) {
      for (size_t i = 0; i < n; i++) m["l"].mutable_list_value()->add_values()->set_string_value(plainStr(r, 12));
      if (w == 4) m["l"].mutable_list_value()->add_values()->set_bool_value(true);
      names = {"l"};
      z = n * 12;
    }
    if (w == 3) for (size_t i = 0; i < n; i++) { m["x" + std::to_string(i)].set_number_value(1); names.push_back("x" + std::to_string(i) + (i & 1 ? ".y" : "")); }
    if (w == 5) {
      PbStruct* cur = pb.get();
      std::string nme = "v";
      for (size_t i = 0; i < n; i++) { cur = (*cur->mutable_fields())["v"].mutable_struct_value(); nme += ".v"; }
      names = {nme, nme + ".v"};
    }
    for (auto& x : names) z += x.size() + 4;
    return Inst{[=] {
      StructUtils u(*pb);
      std::string str; double d; uint64_t q; bool b; std::vector<std::string> l; const PbValue* v;
      for (auto& x : names) { u.GetString(x, &str); u.GetDouble(x, &d); u.GetUInt64(x, &q); u.GetBoolean(x, &b); l.clear(); u.GetStringList(x, &l); u.GetValue(x, v); }
    }, z, ""};
  };
  return f;
}

Family famCache(Rng& g) {
  auto sc = std::make_shared<CacheScenario>(g);
  Family f;
  f.name = "cache/" + std::string(sc->ageMode ? "age" : "lru");
  f.base = 96;
  f.make = [=](size_t n) {
    auto run = std::make_shared<CacheRun>(*sc, n);
    return Inst{[=] { run->go(); }, sc->phases.size() * n * 24, sc->str()};
  };
  return f;
}

void c19(Run& r) {
  Rng g = r.caseRng();
  Family f;
  switch (g.below(9)) {
    case 0: case 1: f = famParse(g); break;
    case 2: case 3: f = famImport(g); break;
    case 4: f = famVerify(g); break;
    case 5: f = famAudience(g); break;
    case 6: f = famClaims(g); break;
    default: f = famCache(g); break;
  }
  size_t n = f.base + g.below(f.base), k = r.thorough() ? g.range(8, 24) : g.range(10, 16);
  if (f.name == "claims/deep") { n = 40; k = 20; }
  Inst a = f.make(n), b = f.make(n * k);
  f.make(n).call();  // initialises what is initialised once
  Work wa = measure(a.call), wb = measure(b.call);
  double ratio = static_cast<double>(b.size) / a.size;
  struct { const char* what; uint64_t x, y; } part[] = {{"control flow edges", wa.edges, wb.edges}, {"bytes copied or compared", wa.bytes, wb.bytes}, {"allocations", wa.allocs, wb.allocs}, {"bytes allocated", wa.allocBytes, wb.allocBytes}};
  std::string id = f.name.substr(0, f.name.find('/'));
  for (auto& p : part) {
    double lim = 2.5 * ratio * (p.x + 4.0 * a.size + 2000);
    if (getenv("VH_DUMP")) fprintf(stderr, "%-40s %-26s n=%zu k=%zu size %llu -> %llu: %llu -> %llu  x%.1f (limit %.2f of)\n", f.name.c_str(), p.what, n, k, (unsigned long long)a.size, (unsigned long long)b.size, (unsigned long long)p.x, (unsigned long long)p.y, (double)p.y / (p.x ? p.x : 1), p.y / lim);
    if (p.y > lim)
      r.fail("C19/" + f.name + "/" + p.what, std::string("the number of ") + p.what + " grew from " + std::to_string(p.x) + " to " + std::to_string(p.y) + " as the input grew from " + std::to_string(a.size) + " to " + std::to_string(b.size) + " bytes (" + f.name + ")", a.text.substr(0, 3000));
  }
  r.count("family:" + id);
  r.count("edges", wa.edges + wb.edges);
  r.count("bytes", wa.bytes + wb.bytes);
  r.count("allocations", wa.allocs + wb.allocs);
  r.eval(fnv(f.name, fnv(a.text) + n));
  r.sample(f.name + " at scales " + std::to_string(n) + " and " + std::to_string(n * k) + ": " + std::to_string(wa.edges) + " and " + std::to_string(wb.edges) + " edges");
}

// ---- C26 -----------------------------------------------------------------------
void c26(Run& r) {
  Rng g = r.caseRng();
  std::string alg = g.pick(std::vector<std::string>{"HS256", "HS384", "HS512"});
  // The set: some keys, of which one made the signature.
  std::vector<std::shared_ptr<Key>> own;
  std::vector<SetKey> set;
  int m = g.range(1, 4);
  int who = static_cast<int>(g.below(m));
  for (int i = 0; i < m; i++) {
    SetKey s;
    if (i == who || g.chance(2, 3)) { own.push_back(freshOct(g)); s.k = own.back().get(); }
    else { do s.k = g.pick(pool().good); while (!s.k->jwkOk); }
    s.hasKid = g.chance(1, 2);
    s.kid = "k";
    if (i == who && g.chance(1, 3)) { s.hasAlg = true; s.alg = alg; }
    set.push_back(s);
  }
  const Key& k = *set[who].k;
  J h = genHeader(g, alg);
  if (g.chance(1, 2)) h.set("kid", J::str("k"));
  std::string d = b64(render(h)) + "." + b64(render(genPayload(g)));
  std::string good = sign(alg, k, d);
  JwksPtr ks = buildSet(set, nullptr);
  std::string what = "token " + d + "." + b64(good) + "\nset " + vh::describe(set);

  auto run = [&](const std::string& sig, bool* ok) {
    Jwt j;
    std::string t = d + "." + b64(sig);
    if (j.parseFromString(t) != Status::Ok) r.harnessError("token does not parse: " + t);
    g_trace = true;
    Status st = Status::JwtBadFormat;
    Work w = measure([&] { st = verifyJwtWithoutTimeChecking(j, *ks); });
    g_trace = false;
    *ok = st == Status::Ok;
    return w;
  };
  bool ok;
  run(good, &ok);  // initialises what is initialised once
  if (!ok) r.harnessError("good signature rejected: " + what);
  size_t L = good.size();
  std::string ref = good;
  ref[0] ^= 1;
  Work w0 = run(ref, &ok);
  if (ok) { r.count("accepted"); return; }
  std::vector<std::pair<std::string, std::string>> vs;
  for (size_t i = 0; i < L; i++) {
    std::string s = good;
    s[i] ^= static_cast<char>(1 << g.below(8));
    vs.push_back({"one bit of byte " + std::to_string(i), s});
    if (g.chance(1, 2)) {
      std::string t = good.substr(0, i) + g.bytes(L - i);
      if (t != good) vs.push_back({"right up to byte " + std::to_string(i), t});
    }
    if (g.chance(1, 4)) {
      std::string t = g.bytes(i) + good.substr(i);
      if (t != good) vs.push_back({"right from byte " + std::to_string(i), t});
    }
  }
  vs.push_back({"zeros", std::string(L, 0)});
  vs.push_back({"ones", std::string(L, -1)});
  for (int i = 0; i < 4; i++) vs.push_back({"random", g.bytes(L)});
  std::set<uint64_t> seen{w0.trace};
  for (auto& v : vs) {
    Work w = run(v.second, &ok);
    if (ok) continue;  // C01 decides
    r.count("compared");
    seen.insert(w.trace);
    if (w.trace != w0.trace)
      r.fail("C26/trace", "rejecting a signature of which " + v.first + " is wrong or right takes another course (" + std::to_string(w.edges) + " edges, " + std::to_string(w.bytes) + " bytes) than one whose first byte is wrong (" + std::to_string(w0.edges) + " edges, " + std::to_string(w0.bytes) + " bytes)", what);
  }
  r.count("traces:" + alg, vs.size());
  r.count("edges", w0.edges);
  r.eval(fnv(what));
  r.sample(what + ": " + std::to_string(vs.size()) + " wrong signatures, " + std::to_string(seen.size()) + " course(s) of " + std::to_string(w0.edges) + " edges");
}
}  // namespace

int main(int argc, char** argv) {
  return runMain(argc, argv, [] {
    const char* d = getenv("VERIF_KEYS");
    pool().load(d ? d : "/verif/keys", R().seed, true);
  }, [](Run& r) { r.prop == "C19" ? c19(r) : c26(r); });
}
