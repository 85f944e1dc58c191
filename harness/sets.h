// Key sets: which keys, imported how, with which kid and alg; and their
// construction through the library.
#pragma once
#include "jwt_verify_lib/jwks.h"
#include "jwt_verify_lib/verify.h"
#include "keys.h"
#include "tok.h"

namespace vh {
using google::jwt_verify::Jwks;
using google::jwt_verify::JwksPtr;

enum class Route { JWKS, PEM, PEMKA, X509 };  // PEMKA: PEM with kid and alg
struct SetKey {
  const Key* k;
  std::string kid, alg;
  bool hasKid = false, hasAlg = false, crv = true;
  Route route = Route::JWKS;
  uint64_t extra = 0;  // not 0: other members too (JWKS)
  std::string junk;  // not a key: an entry that fails to parse
};

inline std::string describe(const SetKey& s) {
  if (!s.junk.empty()) return "junk:" + s.junk;
  static const char* rn[] = {"jwks", "pem", "pem+kid+alg", "x509"};
  return s.k->name + (s.k->name == "own" ? " secret=" + hex(s.k->secret) : s.k->name == "own-ec" ? " x=" + hex(s.k->x) + " y=" + hex(s.k->y) : "") + "/" + rn[static_cast<int>(s.route)] + (s.hasKid ? " kid=" + s.kid : "") + (s.hasAlg ? " alg=" + s.alg : "");
}
inline std::string describe(const std::vector<SetKey>& v) {
  std::string r;
  for (auto& s : v) r += (r.empty() ? "[" : "; ") + describe(s);
  return r + "]";
}

// The well-formed JWK algs for a key, other than "".
inline std::vector<std::string> jwkAlgs(const Key& k) {
  switch (k.t) {
    case KT::RSA: return {"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"};
    case KT::EC: return {crvAlg(k.nid)};
    case KT::OCT: return {"HS256", "HS384", "HS512"};
    default: return {"EdDSA"};
  }
}

// Builds the set. X509 keys and JWKS keys cannot be in one document: with
// X509 keys there must be no JWKS keys. If `texts` is given, the documents are
// appended to it.
inline JwksPtr buildSet(const std::vector<SetKey>& v, Rng* g, std::string* texts = nullptr) {
  JwksPtr set;
  std::string doc;
  bool x509 = false;
  for (auto& s : v) if (s.route == Route::X509 && s.junk.empty()) x509 = true;
  J entries = J::list({});
  J certs = J::obj();
  for (auto& s : v) {
    if (!s.junk.empty()) { if (!x509) entries.l.push_back(J::raw(s.junk)); continue; }
    if (s.route == Route::JWKS) {
      J e = jwk(*s.k, s.kid, s.alg, s.hasKid, s.hasAlg, s.crv);
      if (s.extra) { Rng x(s.extra); addKeyMembers(x, &e); x.shuffle(e.o); }
      entries.l.push_back(e);
    }
    if (s.route == Route::X509) certs.set(s.kid, J::str(s.k->crt));
  }
  if (x509) doc = render(certs, g);
  else if (!entries.l.empty()) { J d = J::obj(); d.set("keys", entries); doc = render(d, g); }
  if (!doc.empty()) {
    set = Jwks::createFrom(doc, Jwks::JWKS);
    if (texts) *texts += doc + "\n";
  }
  for (auto& s : v) {
    if (!s.junk.empty() || (s.route != Route::PEM && s.route != Route::PEMKA)) continue;
    std::string kid = s.hasKid ? s.kid : "", alg = s.hasAlg ? s.alg : "";
    if (texts) *texts += "PEM kid=" + kid + " alg=" + alg + "\n" + s.k->pem;
    if (!set) {
      set = s.route == Route::PEM ? Jwks::createFrom(s.k->pem, Jwks::PEM) : Jwks::createFromPem(s.k->pem, kid, alg);
    } else {
      set->addKeyFromPem(s.k->pem, kid, alg);
    }
  }
  if (!set) set = Jwks::createFrom("{\"keys\":[]}", Jwks::JWKS);
  return set;
}

// Makes kid/alg/route of s one that its key can be imported with.
inline void legalize(SetKey& s, Rng& g) {
  if (!s.junk.empty()) return;
  if (s.route == Route::X509 && (s.k->crt.empty() || s.k->t != KT::RSA)) s.route = Route::JWKS;
  if ((s.route == Route::PEM || s.route == Route::PEMKA) && s.k->pem.empty()) s.route = Route::JWKS;
  if (s.route == Route::JWKS && !s.k->jwkOk) s.route = Route::PEMKA;
  if (s.route == Route::PEM) s.hasKid = s.hasAlg = false;
  if (s.route == Route::X509) {
    s.hasAlg = false;
    s.hasKid = true;
    if (s.kid.empty()) s.kid = "x";
    if (s.kid == "keys") s.kid = "keyz";  // would make it a JWKS document
  }
  if (s.route == Route::JWKS && s.hasAlg && !s.alg.empty()) {
    auto ok = jwkAlgs(*s.k);
    bool good = false;
    for (auto& a : ok) good |= a == s.alg;
    if (!good) {
      if (!s.k->pem.empty() && g.chance(1, 2)) s.route = Route::PEMKA;
      else s.alg = g.pick(ok);
    }
  }
  if (s.route == Route::JWKS && s.k->t == KT::EC && (!s.hasAlg || s.alg.empty()) && s.k->nid != NID_X9_62_prime256v1) s.crv = true;
  if (!s.hasKid) s.kid = "";
  if (!s.hasAlg) s.alg = "";
}

// x509 documents cannot hold JWKS keys: move those elsewhere; no two x509 keys
// with the same kid.
inline void legalizeSet(std::vector<SetKey>& v, Rng& g) {
  for (auto& s : v) legalize(s, g);
  bool x = false;
  for (auto& s : v) if (s.junk.empty() && s.route == Route::X509) x = true;
  if (!x) return;
  std::vector<SetKey> r;
  std::set<std::string> kids;
  for (auto& s : v) {
    if (!s.junk.empty()) continue;
    if (s.route == Route::JWKS) {
      if (s.k->pem.empty()) continue;
      s.route = Route::PEMKA;
    }
    if (s.route == Route::X509 && !kids.insert(s.kid).second) s.route = Route::PEMKA;
    r.push_back(s);
  }
  v = r;
}

inline bool kidOk(const std::string& tokKid, const SetKey& s) { return tokKid.empty() || s.kid.empty() || tokKid == s.kid; }
inline bool algOk(const std::string& alg, const SetKey& s) { return s.alg.empty() || s.alg == alg; }
}  // namespace vh
