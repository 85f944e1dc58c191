// Plans of calls on shared and private objects, and the digest of what each
// call returned.
#pragma once
#include <algorithm>

#include "gen.h"
#include "jwt_verify_lib/check_audience.h"
#include "jwt_verify_lib/struct_utils.h"
#include "openssl/rsa.h"
#include "simple_lru_cache/simple_lru_cache_inl.h"

namespace calls {
using namespace vh;
using google::jwt_verify::CheckAudience;
using google::jwt_verify::StructUtils;
using google::jwt_verify::verifyJwt;
using google::jwt_verify::verifyJwtWithoutTimeChecking;

const int kThreads = 8, kOps = 40;

struct Op {
  int kind;
  int a = 0, b = 0;
  std::string text, t2, t3;
  uint64_t n = 0, m = 0;
};
struct Plan {
  bool cold = false;  // no shared objects: the threads' calls are the first ones
  std::vector<std::string> toks;              // shared
  std::vector<std::vector<SetKey>> sets;      // shared
  std::vector<std::vector<std::string>> auds; // shared
  std::vector<std::vector<Op>> ops;           // per thread
};
inline const char* opName(int k) {
  static const char* n[] = {"verify", "verify-time", "verify-aud", "copy-and-reuse", "parse-and-verify", "audience", "claims", "status-text", "import-jwks", "import-pem", "time", "cache", "read-token"};
  return n[k];
}
inline std::string describe(const Op& o) { return std::string(opName(o.kind)) + " " + std::to_string(o.a) + " " + std::to_string(o.b) + " " + o.text.substr(0, 600); }

inline std::string ser(const PbStruct& s);
inline std::string ser(const PbValue& v) {
  std::string r = std::to_string(static_cast<int>(v.kind_case())) + ":";
  switch (v.kind_case()) {
    case PbValue::kNumberValue: { char b[40]; snprintf(b, sizeof b, "%.17g", v.number_value()); return r + b; }
    case PbValue::kStringValue: return r + std::to_string(v.string_value().size()) + "/" + v.string_value();
    case PbValue::kBoolValue: return r + (v.bool_value() ? "t" : "f");
    case PbValue::kStructValue: return r + ser(v.struct_value());
    case PbValue::kListValue: for (auto& x : v.list_value().values()) r += ser(x) + ","; return r + "]";
    default: return r;
  }
}
inline std::string ser(const PbStruct& s) {
  std::map<std::string, std::string> m;
  for (auto& f : s.fields()) m[f.first] = ser(f.second);
  std::string r = "{";
  for (auto& f : m) r += f.first + "=" + f.second + ";";
  return r + "}";
}
inline std::string ser(const Jwt& j) {
  std::string r;
  for (auto* s : {&j.alg_, &j.kid_, &j.iss_, &j.sub_, &j.jti_, &j.jwt_, &j.header_str_, &j.header_str_base64url_, &j.payload_str_, &j.payload_str_base64url_, &j.signature_}) r += std::to_string(s->size()) + ":" + *s + "|";
  for (auto& a : j.audiences_) r += a + ",";
  return r + std::to_string(j.iat_) + " " + std::to_string(j.nbf_) + " " + std::to_string(j.exp_) + ser(j.header_pb_) + ser(j.payload_pb_);
}
// An x509 map has no order: neither have the keys from it, nor the defects of
// which one is reported.
inline std::string ser(const Jwks& s, bool unordered = false) {
  std::string all = std::to_string(unordered ? s.getStatus() == Status::Ok : static_cast<int>(s.getStatus()));
  std::vector<std::string> keys;
  for (auto& k : s.keys()) {
    std::string r = "|" + k->kid_ + "," + k->kty_ + "," + k->alg_ + "," + k->crv_ + "," + k->hmac_key_ + "," + k->okp_key_raw_;
    if (k->rsa_) {
      const BIGNUM *n, *e;
      RSA_get0_key(k->rsa_.get(), &n, &e, nullptr);
      r += bnStr(n) + "/" + bnStr(e);
    }
    if (k->ec_key_) {
      const EC_GROUP* g = EC_KEY_get0_group(k->ec_key_.get());
      const EC_POINT* p = EC_KEY_get0_public_key(k->ec_key_.get());
      uint8_t b[200];
      size_t n = p ? EC_POINT_point2oct(g, p, POINT_CONVERSION_UNCOMPRESSED, b, sizeof b, nullptr) : 0;
      r += std::to_string(EC_GROUP_get_curve_name(g)) + "/" + std::string(reinterpret_cast<char*>(b), n);
    }
    keys.push_back(r);
  }
  if (unordered) std::sort(keys.begin(), keys.end());
  for (auto& k : keys) all += k;
  return all;
}

struct Shared {
  std::vector<Jwt> jwts;
  std::vector<JwksPtr> sets;
  std::vector<std::unique_ptr<CheckAudience>> auds;
  std::vector<Status> st;
  std::vector<bool> x509;  // made from x509 certificates
  // The second form is the same in every process that made the same objects.
  std::string ser(bool unordered) const {
    std::string r;
    for (auto& j : jwts) r += calls::ser(j);
    for (size_t i = 0; i < sets.size(); i++) r += calls::ser(*sets[i], unordered && x509[i]);
    return r;
  }
};

struct CV { uint64_t x; };
typedef google::simple_lru_cache::SimpleLRUCache<uint64_t, CV> Lru;

inline uint64_t runOp(const Op& o, const Shared& sh, const Plan& p) {
  std::string r;
  auto S = [&](Status s) { r += std::to_string(static_cast<int>(s)) + ";"; };
  const Jwt* j = sh.jwts.empty() ? nullptr : &sh.jwts[o.a % sh.jwts.size()];
  const Jwks* k = sh.sets.empty() ? nullptr : sh.sets[o.b % sh.sets.size()].get();
  int ai = p.auds.empty() ? 0 : o.b % static_cast<int>(p.auds.size());
  switch (o.kind) {
    case 0: S(verifyJwtWithoutTimeChecking(*j, *k)); break;
    case 1: S(verifyJwt(*j, *k, o.n, o.m)); S(verifyJwt(*j, *k, o.n)); break;
    case 2: S(verifyJwt(*j, *k, p.auds[ai], o.n)); break;
    case 3: {
      Jwt c(*j);
      r += ser(c);
      S(c.parseFromString(o.text));
      r += ser(c);
      c = *j;
      r += ser(c);
      break;
    }
    case 4: {
      Jwt c;
      S(c.parseFromString(o.text));
      r += ser(c);
      if (k) S(verifyJwtWithoutTimeChecking(c, *k));
      break;
    }
    case 5: r += sh.auds[ai]->areAudiencesAllowed(j->audiences_) ? "y" : "n"; r += sh.auds[ai]->areAudiencesAllowed({o.text}) ? "y" : "n"; break;
    case 6: {
      for (const PbStruct* pb : {&j->payload_pb_, &j->header_pb_}) {
        StructUtils u(*pb);
        for (const char* n : {"iss", "aud", "exp", "alg", "nested.a", "a.b.c", "iat"}) {
          std::string s;
          double d = 0;
          uint64_t q = 0;
          bool b = false;
          std::vector<std::string> l;
          r += std::to_string(u.GetString(n, &s)) + s + std::to_string(u.GetDouble(n, &d)) + std::to_string(d) + std::to_string(u.GetUInt64(n, &q)) + std::to_string(q) + std::to_string(u.GetBoolean(n, &b)) + std::to_string(b);
          if (u.GetStringList(n, &l) == StructUtils::OK) for (auto& x : l) r += x + ",";
          const PbValue* v = nullptr;
          if (u.GetValue(n, v) == StructUtils::OK) r += ser(*v);
        }
      }
      break;
    }
    case 7: for (int i = 0; i < 90; i++) r += google::jwt_verify::getStatusString(static_cast<Status>((o.a + i) % 90)) + ";"; break;
    case 8: {
      JwksPtr s = Jwks::createFrom(o.text, Jwks::JWKS);
      r += ser(*s, o.m == 1);
      if (j) S(verifyJwtWithoutTimeChecking(*j, *s));
      else { Jwt c; S(c.parseFromString(o.t2)); S(verifyJwtWithoutTimeChecking(c, *s)); }
      break;
    }
    case 9: {
      JwksPtr s = o.n & 1 ? Jwks::createFromPem(o.text, o.t2, o.t3) : Jwks::createFrom(o.text, Jwks::PEM);
      r += ser(*s);
      S(s->addKeyFromPem(o.text, o.t3, o.t2));
      r += ser(*s);
      if (j) S(verifyJwtWithoutTimeChecking(*j, *s));
      break;
    }
    case 10: S(j->verifyTimeConstraint(o.n, o.m)); S(j->verifyTimeConstraint(o.n)); break;
    case 11: {
      Rng g(o.n);
      Lru c(g.range(1, 5));
      for (int i = 0; i < 12; i++) {
        uint64_t key = g.below(6);
        switch (g.below(4)) {
          case 0: c.insert(key, new CV{i + o.n}, 1); break;
          case 1: c.remove(key); break;
          default: { CV* v = c.lookup(key); r += v ? std::to_string(v->x) : "-"; if (v) c.release(key, v); }
        }
      }
      r += std::to_string(c.size()) + "," + std::to_string(c.entries());
      c.clear();
      break;
    }
    default: r += ser(*j); S(sh.st[o.a % sh.st.size()]);
  }
  return fnv(r);
}

inline std::string wellSigned(Rng& g, const std::vector<SetKey>& set) {
  std::string alg;
  const Key* k = nullptr;
  for (int t = 0; t < 30 && !k; t++) {
    const Key* c = set.empty() || g.chance(1, 6) ? g.pick(pool().good) : g.pick(set).k;
    alg = g.pick(allAlgs());
    if (c && fits(alg, *c)) k = c;
  }
  if (!k) { k = pool().oct[0]; alg = "HS256"; }
  J h = genHeader(g, alg);
  if (g.chance(1, 3)) h.set("kid", J::str(g.chance(2, 3) ? "k" + std::to_string(g.below(4)) : genStr(g, 5)));
  std::string d = b64(render(h)) + "." + b64(render(genPayload(g)));
  std::string sig = sign(alg, *k, d);
  if (g.chance(1, 5)) sig[g.below(sig.size())] ^= 4;
  return d + "." + b64(sig);
}
inline std::vector<SetKey> someKeys(Rng& g) {
  std::vector<SetKey> v;
  bool x509 = g.chance(1, 4);
  for (int n = g.range(1, 5); n--;) {
    SetKey s;
    s.k = x509 && g.chance(2, 3) ? g.pick(pool().crt) : g.pick(pool().good);
    s.hasKid = g.chance(1, 2);
    s.kid = "k" + std::to_string(g.below(4));
    s.hasAlg = g.chance(1, 3);
    auto a = jwkAlgs(*s.k);
    s.alg = a.empty() ? "" : g.pick(a);
    s.route = static_cast<Route>(g.below(3));
    if (x509 && !s.k->crt.empty() && g.chance(5, 6)) s.route = Route::X509;
    v.push_back(s);
  }
  legalizeSet(v, g);
  return v;
}

inline Plan genPlan(Rng& g) {
  Plan p;
  p.cold = g.chance(1, 3);
  std::vector<std::vector<SetKey>> sets;
  for (int n = g.range(1, 2); n--;) sets.push_back(someKeys(g));
  std::vector<std::string> toks;
  for (int n = g.range(1, 4); n--;) toks.push_back(wellSigned(g, g.pick(sets)));
  if (!p.cold) {
    p.sets = sets;
    p.toks = toks;
    if (g.chance(1, 4)) p.toks.push_back(genToken(g, 1).text);
  }
  for (int n = g.range(1, 2); n--;) {
    std::vector<std::string> a;
    for (int m = g.range(0, 4); m--;) a.push_back(g.pick(std::vector<std::string>{"http://a", "https://b/", "c", "aud1", ""}));
    p.auds.push_back(a);
  }
  int nt = g.range(2, g.chance(1, 4) ? kThreads : 4);
  // Often all threads make the same few calls, which then meet.
  bool same = g.chance(1, 2);
  std::vector<Op> menu;
  auto mk = [&]() {
    Op o;
    static const int priv[] = {4, 4, 4, 8, 8, 9, 7, 11};
    static const int shared[] = {0, 0, 0, 0, 0, 0, 1, 2, 2, 3, 3, 4, 4, 5, 6, 6, 7, 8, 9, 10, 11, 12};
    o.kind = p.cold ? priv[g.below(8)] : shared[g.below(22)];
    o.a = static_cast<int>(g.below(90));
    o.b = static_cast<int>(g.below(8));
    o.n = g.u64() >> g.below(64);
    o.m = g.u64() >> g.below(64);
    std::string w;
    switch (o.kind) {
      case 3: case 4: o.text = g.chance(1, 2) ? g.pick(toks) : genToken(g, g.range(0, 1)).text; break;
      case 8: {
        J l = J::list({}), d = J::obj();
        for (auto& s : g.pick(sets)) if (fits("RS256", *s.k) || s.route == Route::JWKS) l.l.push_back(jwk(*s.k, s.kid, "", s.hasKid, false));
        o.m = g.chance(1, 6);
        o.text = o.m ? genX509Doc(g) : g.chance(1, 3) ? genJwksDoc(g) : render(d.set("keys", l));
        o.t2 = g.pick(toks);
        break;
      }
      case 9: o.text = genPem(g, &w); o.t2 = g.pick(allAlgs()); o.t3 = "k1"; break;
      case 5: o.text = g.pick(std::vector<std::string>{"a", "b/", "https://c", "aud1/"}); break;
    }
    return o;
  };
  for (int i = g.range(1, 4); i--;) menu.push_back(mk());
  for (int t = 0; t < nt; t++) {
    std::vector<Op> v;
    for (int n = g.range(2, p.cold ? 8 : 20); n--;) v.push_back(same ? g.pick(menu) : mk());
    p.ops.push_back(v);
  }
  return p;
}

inline void build(const Plan& p, Shared* s) {
  if (p.cold) return;
  s->jwts.resize(p.toks.size());
  for (size_t i = 0; i < p.toks.size(); i++) s->st.push_back(s->jwts[i].parseFromString(p.toks[i]));
  for (auto& v : p.sets) {
    bool x = false;
    for (auto& k : v) x = x || k.route == Route::X509;
    s->x509.push_back(x);
    s->sets.push_back(buildSet(v, nullptr));
  }
  for (auto& a : p.auds) s->auds.emplace_back(new CheckAudience(a));
}
}  // namespace calls
