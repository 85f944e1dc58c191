// The harness's own keys, signers and signature verdicts, on BoringSSL
// primitives only.
#pragma once
#include <dirent.h>

#include <fstream>
#include <memory>
#include <sstream>

#include "openssl/bio.h"
#include "openssl/bn.h"
#include "openssl/bytestring.h"
#include "openssl/curve25519.h"
#include "openssl/ec.h"
#include "openssl/ec_key.h"
#include "openssl/ecdsa.h"
#include "openssl/err.h"
#include "openssl/evp.h"
#include "openssl/hmac.h"
#include "openssl/mem.h"
#include "openssl/pem.h"
#include "openssl/rsa.h"
#include "openssl/sha.h"
#include "openssl/x509.h"
#include "tok.h"

namespace vh {
enum class KT { RSA, EC, OCT, OKP };
struct Key {
  KT t;
  std::string name;
  bssl::UniquePtr<EVP_PKEY> pkey;  // private key, for RSA and EC
  int nid = 0;                     // EC
  std::string n, e, x, y;          // public numbers, big endian (x also OKP)
  std::string secret;              // OCT secret, OKP private key (64 bytes)
  std::string pem;                 // public key PEM, where there is one
  std::string crt;                 // certificate PEM, where there is one
  bool jwkOk = true;               // may be given as a JSON web key
  RSA* rsa() const { return EVP_PKEY_get0_RSA(pkey.get()); }
  EC_KEY* ec() const { return EVP_PKEY_get0_EC_KEY(pkey.get()); }
};

inline std::string readFile(const std::string& f) {
  std::ifstream i(f, std::ios::binary);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
inline std::string bnStr(const BIGNUM* b, size_t pad = 0) {
  size_t n = BN_num_bytes(b);
  if (n < pad) n = pad;
  std::string r(n, 0);
  BN_bn2bin_padded(reinterpret_cast<uint8_t*>(&r[0]), n, b);
  return r;
}
inline size_t ecLen(int nid) { return nid == NID_X9_62_prime256v1 ? 32 : nid == NID_secp384r1 ? 48 : nid == NID_secp521r1 ? 66 : 28; }
inline const char* crvName(int nid) {
  return nid == NID_X9_62_prime256v1 ? "P-256" : nid == NID_secp384r1 ? "P-384" : nid == NID_secp521r1 ? "P-521" : "P-224";
}
inline const char* crvAlg(int nid) {
  return nid == NID_X9_62_prime256v1 ? "ES256" : nid == NID_secp384r1 ? "ES384" : nid == NID_secp521r1 ? "ES512" : "";
}
inline std::string pemPub(EVP_PKEY* k) {
  bssl::UniquePtr<BIO> b(BIO_new(BIO_s_mem()));
  PEM_write_bio_PUBKEY(b.get(), k);
  const uint8_t* p; size_t n;
  BIO_mem_contents(b.get(), &p, &n);
  return std::string(reinterpret_cast<const char*>(p), n);
}
inline std::string derPub(EVP_PKEY* k) {
  uint8_t* d = nullptr;
  int n = i2d_PUBKEY(k, &d);
  std::string r(reinterpret_cast<char*>(d), n > 0 ? n : 0);
  OPENSSL_free(d);
  return r;
}
inline void fillEc(Key& k) {
  bssl::UniquePtr<BIGNUM> x(BN_new()), y(BN_new());
  const EC_GROUP* g = EC_KEY_get0_group(k.ec());
  EC_POINT_get_affine_coordinates_GFp(g, EC_KEY_get0_public_key(k.ec()), x.get(), y.get(), nullptr);
  k.nid = EC_GROUP_get_curve_name(g);
  k.x = bnStr(x.get(), ecLen(k.nid));
  k.y = bnStr(y.get(), ecLen(k.nid));
}
inline bssl::UniquePtr<EVP_PKEY> ecFromScalar(int nid, const std::string& seed) {
  bssl::UniquePtr<EC_KEY> ec(EC_KEY_new_by_curve_name(nid));
  const EC_GROUP* g = EC_KEY_get0_group(ec.get());
  std::string d;
  for (int i = 0; d.size() < ecLen(nid) - 1; i++) {
    uint8_t h[32];
    std::string s = seed + std::to_string(i);
    SHA256(reinterpret_cast<const uint8_t*>(s.data()), s.size(), h);
    d.append(reinterpret_cast<char*>(h), 32);
  }
  d.resize(ecLen(nid) - 1);
  bssl::UniquePtr<BIGNUM> bn(BN_bin2bn(reinterpret_cast<const uint8_t*>(d.data()), d.size(), nullptr));
  bssl::UniquePtr<EC_POINT> pt(EC_POINT_new(g));
  EC_POINT_mul(g, pt.get(), bn.get(), nullptr, nullptr, nullptr);
  EC_KEY_set_private_key(ec.get(), bn.get());
  EC_KEY_set_public_key(ec.get(), pt.get());
  bssl::UniquePtr<EVP_PKEY> p(EVP_PKEY_new());
  EVP_PKEY_set1_EC_KEY(p.get(), ec.get());
  return p;
}

struct KeyPool {
  std::vector<std::unique_ptr<Key>> all;
  std::vector<const Key*> rsa, ec, oct, okp, crt, good;  // good: usable with some alg
  std::vector<std::string> otherPems;                    // PEM public keys of unsupported types
  std::map<std::string, std::string> files;

  Key* add(std::unique_ptr<Key> k) {
    Key* p = k.get();
    all.push_back(std::move(k));
    return p;
  }
  const Key* byName(const std::string& n) const {
    for (auto& k : all) if (k->name == n) return k.get();
    R().harnessError("no key " + n);
  }
  void addOct(const std::string& name, const std::string& secret) {
    std::unique_ptr<Key> k(new Key());
    k->t = KT::OCT; k->name = name; k->secret = secret;
    oct.push_back(add(std::move(k)));
  }
  void addEc(const std::string& name, bssl::UniquePtr<EVP_PKEY> p) {
    std::unique_ptr<Key> k(new Key());
    k->t = KT::EC; k->name = name; k->pkey = std::move(p);
    fillEc(*k);
    k->pem = pemPub(k->pkey.get());
    ec.push_back(add(std::move(k)));
  }
  // Looks for an EC key whose x or y starts with a zero byte.
  void addEcZero(int nid, const std::string& seed, bool inX) {
    for (int i = 0; i < 6000; i++) {
      auto p = ecFromScalar(nid, seed + "/" + std::to_string(i));
      Key k;
      k.pkey = std::move(p);
      fillEc(k);
      const std::string& c = inX ? k.x : k.y;
      if (c[0] == 0 && (nid != NID_secp521r1 || c[1] == 0)) {
        addEc(std::string("ec_zero_") + (inX ? "x_" : "y_") + crvName(nid), std::move(k.pkey));
        return;
      }
    }
  }
  void load(const std::string& dir, uint64_t seed, bool light = false) {
    std::vector<std::string> names;
    DIR* d = opendir(dir.c_str());
    if (!d) R().harnessError("cannot read " + dir);
    while (dirent* e = readdir(d)) {
      std::string f = e->d_name;
      files[f] = dir + "/" + f;
      if (f.size() > 4 && f.substr(f.size() - 4) == ".pem") names.push_back(f.substr(0, f.size() - 4));
    }
    closedir(d);
    std::sort(names.begin(), names.end());
    for (auto& n : names) {
      if (light && n == "rsa8192") continue;
      std::string pub = files.count(n + ".pub") ? readFile(files[n + ".pub"]) : "";
      if (n.find("secp256k1") != std::string::npos || n.find("x25519") != std::string::npos || n.find("dsa_") == 0) {
        otherPems.push_back(pub);
        continue;
      }
      std::string priv = readFile(files[n + ".pem"]);
      bssl::UniquePtr<BIO> b(BIO_new_mem_buf(priv.data(), priv.size()));
      bssl::UniquePtr<EVP_PKEY> p(PEM_read_bio_PrivateKey(b.get(), nullptr, nullptr, nullptr));
      if (!p) R().harnessError("cannot load key " + n);
      std::unique_ptr<Key> k(new Key());
      k->name = n;
      k->pem = pub;
      if (files.count(n + ".crt")) k->crt = readFile(files[n + ".crt"]);
      int id = EVP_PKEY_id(p.get());
      k->pkey = std::move(p);
      if (id == EVP_PKEY_RSA) {
        k->t = KT::RSA;
        const BIGNUM *bn, *be;
        RSA_get0_key(k->rsa(), &bn, &be, nullptr);
        k->n = bnStr(bn); k->e = bnStr(be);
        // As JSON web keys, only the usual exponents are taken (on purpose).
        k->jwkOk = BN_is_word(be, 3) || BN_is_word(be, 65537);
        if (!k->crt.empty()) crt.push_back(k.get());
        rsa.push_back(add(std::move(k)));
      } else if (id == EVP_PKEY_EC) {
        k->t = KT::EC;
        fillEc(*k);
        ec.push_back(add(std::move(k)));
      } else if (id == EVP_PKEY_ED25519) {
        k->t = KT::OKP;
        uint8_t seedb[32], pubb[32], privb[64];
        size_t len = 32;
        if (EVP_PKEY_get_raw_private_key(k->pkey.get(), seedb, &len) != 1) R().harnessError("ed25519 raw");
        ED25519_keypair_from_seed(pubb, privb, seedb);
        k->x.assign(reinterpret_cast<char*>(pubb), 32);
        k->secret.assign(reinterpret_cast<char*>(privb), 64);
        okp.push_back(add(std::move(k)));
      } else R().harnessError("unexpected key type " + n);
    }
    std::string s = std::to_string(seed);
    if (!light) {
      for (int nid : {NID_X9_62_prime256v1, NID_secp384r1, NID_secp521r1}) {
        addEcZero(nid, s, true);
        addEcZero(nid, s, false);
      }
      addEc("ec_seeded_256", ecFromScalar(NID_X9_62_prime256v1, "a" + s));
    }
    Rng g(seed * 77 + 5);
    addOct("oct32", g.bytes(32));
    addOct("oct1", g.bytes(1));
    addOct("oct_nul", std::string("\0\0key\0", 6));
    addOct("oct64", g.bytes(64));
    addOct("oct200", g.bytes(200));
    addOct("oct_text", "secret-secret-secret-secret-secret-secret");
    addOct("oct_space", " secret with white space at both ends ");
    addOct("oct_newline", "secret read from a file\n");
    addOct("oct_nul_end", std::string("secret\0\0", 8));
    addOct("oct_zeros", std::string(32, 0));
    for (int n : {63, 64, 65, 127, 128, 129}) addOct("oct_" + std::to_string(n), g.bytes(n));
    ERR_clear_error();
    for (auto& k : all) if (k->t == KT::EC && k->nid == NID_secp224r1) k->jwkOk = false;
    for (auto& k : all) if (k->jwkOk) good.push_back(k.get());
  }
};
inline KeyPool& pool() { static KeyPool* p = new KeyPool; return *p; }

inline const uint8_t* u8(const std::string& s) { return reinterpret_cast<const uint8_t*>(s.data()); }

inline int algBits(const std::string& a) { return a == "EdDSA" ? 0 : atoi(a.c_str() + 2); }
inline const EVP_MD* mdOf(int bits) { return bits == 256 ? EVP_sha256() : bits == 384 ? EVP_sha384() : EVP_sha512(); }
inline int curveOf(const std::string& a) {
  return a == "ES256" ? NID_X9_62_prime256v1 : a == "ES384" ? NID_secp384r1 : a == "ES512" ? NID_secp521r1 : 0;
}
inline std::string digest(int bits, const std::string& d) {
  uint8_t o[EVP_MAX_MD_SIZE]; unsigned n = 0;
  EVP_Digest(d.data(), d.size(), o, &n, mdOf(bits), nullptr);
  return std::string(reinterpret_cast<char*>(o), n);
}
// type and curve the alg is defined for
inline bool fits(const std::string& a, const Key& k) {
  switch (a[0]) {
    case 'H': return k.t == KT::OCT;
    case 'R': case 'P': return k.t == KT::RSA;
    default:
      if (a == "EdDSA") return k.t == KT::OKP;
      return k.t == KT::EC && k.nid == curveOf(a);
  }
}
inline bool typeFits(const std::string& a, const Key& k) {
  if (a[0] == 'E' && a != "EdDSA") return k.t == KT::EC;
  return fits(a, k);
}

inline std::string signRsa(const Key& k, int bits, const std::string& d) {
  std::string h = digest(bits, d), s(RSA_size(k.rsa()), 0);
  unsigned n = 0;
  int nid = bits == 256 ? NID_sha256 : bits == 384 ? NID_sha384 : NID_sha512;
  if (!RSA_sign(nid, u8(h), h.size(), reinterpret_cast<uint8_t*>(&s[0]), &n, k.rsa())) { ERR_clear_error(); return ""; }
  s.resize(n);
  return s;
}
inline std::string signPss(const Key& k, int bits, const std::string& d, int salt = -1) {
  std::string h = digest(bits, d), s(RSA_size(k.rsa()), 0);
  size_t n = 0;
  if (!RSA_sign_pss_mgf1(k.rsa(), &n, reinterpret_cast<uint8_t*>(&s[0]), s.size(), u8(h), h.size(), mdOf(bits), mdOf(bits), salt)) { ERR_clear_error(); return ""; }
  s.resize(n);
  return s;
}
inline std::string signEcDigest(const Key& k, const std::string& h) {
  bssl::UniquePtr<ECDSA_SIG> g(ECDSA_do_sign(u8(h), h.size(), k.ec()));
  if (!g) { ERR_clear_error(); return ""; }
  return bnStr(g->r, ecLen(k.nid)) + bnStr(g->s, ecLen(k.nid));
}
inline std::string signHmac(const std::string& secret, int bits, const std::string& d) {
  uint8_t o[EVP_MAX_MD_SIZE]; unsigned n = 0;
  HMAC(mdOf(bits), secret.data(), secret.size(), u8(d), d.size(), o, &n);
  return std::string(reinterpret_cast<char*>(o), n);
}
inline std::string signEd(const Key& k, const std::string& d) {
  std::string s(64, 0);
  ED25519_sign(reinterpret_cast<uint8_t*>(&s[0]), u8(d), d.size(), u8(k.secret));
  return s;
}
// Signs with any key whose type allows it; "" if it cannot.
inline std::string sign(const std::string& a, const Key& k, const std::string& d) {
  if (a[0] == 'R' && k.t == KT::RSA) return signRsa(k, algBits(a), d);
  if (a[0] == 'P' && k.t == KT::RSA) return signPss(k, algBits(a), d);
  if (a == "EdDSA") return k.t == KT::OKP ? signEd(k, d) : "";
  if (a[0] == 'E' && k.t == KT::EC) return signEcDigest(k, digest(algBits(a), d));
  if (a[0] == 'H' && k.t == KT::OCT) return signHmac(k.secret, algBits(a), d);
  return "";
}

// The signature of what a broken verifier may take for the digest of the token.
inline std::string weakSig(Rng& g, const std::string& a, const Key& k, const std::string& d) {
  int bits = algBits(a);
  size_t n = bits / 8;
  std::string h;
  switch (g.below(8)) {
    case 0: case 1: h = std::string(n, 0); break;
    case 2: h = std::string(n, static_cast<char>(0xaa)); break;
    case 3: h = std::string(n, static_cast<char>(0xff)); break;
    case 4: h = bits ? digest(bits, "") : ""; break;
    case 5: h = bits ? digest(bits, d.substr(0, d.find('.'))) : ""; break;
    case 6: h = bits ? digest(bits, d.substr(0, d.find('.') + 1)) : ""; break;
    default: h = std::string(1, 0); break;
  }
  if (a[0] == 'H') {
    switch (g.below(5)) {
      case 0: return std::string(n, 0);
      case 1: return signHmac("", bits, d);
      case 2: return signHmac(k.secret, bits, "");
      case 3: return signHmac(std::string(k.secret.size(), 0), bits, d);
      default: return h.size() == n ? h : std::string(n, 0);
    }
  }
  if (k.t == KT::OKP) return g.chance(1, 2) ? signEd(k, "") : signEd(k, d.substr(0, d.find('.')));
  if (k.t == KT::EC) {
    if (g.chance(1, 4)) h.resize(n);
    return signEcDigest(k, h);
  }
  if (k.t != KT::RSA || h.size() != n) return "";
  std::string s(RSA_size(k.rsa()), 0);
  if (a[0] == 'R') {
    unsigned l = 0;
    if (!RSA_sign(bits == 256 ? NID_sha256 : bits == 384 ? NID_sha384 : NID_sha512, u8(h), h.size(), reinterpret_cast<uint8_t*>(&s[0]), &l, k.rsa())) { ERR_clear_error(); return ""; }
    return s;
  }
  size_t l = 0;
  if (!RSA_sign_pss_mgf1(k.rsa(), &l, reinterpret_cast<uint8_t*>(&s[0]), s.size(), u8(h), h.size(), mdOf(bits), mdOf(bits), -1)) { ERR_clear_error(); return ""; }
  return s;
}

// An EC key of this case only, under which an extreme signature of the digest h
// (r, s tiny, huge, with zero bytes at their ends) is valid: r and s are chosen
// and the public key that fits computed. It has no private key.
inline std::shared_ptr<Key> edgeEc(Rng& g, int nid, const std::string& h, std::string* sig) {
  bssl::UniquePtr<EC_KEY> ec(EC_KEY_new_by_curve_name(nid));
  const EC_GROUP* grp = EC_KEY_get0_group(ec.get());
  const BIGNUM* n = EC_GROUP_get0_order(grp);
  bssl::UniquePtr<BN_CTX> ctx(BN_CTX_new());
  size_t len = ecLen(nid);
  auto edge = [&](bool forX) {
    bssl::UniquePtr<BIGNUM> b(BN_new());
    switch (g.below(6)) {
      case 0: BN_set_word(b.get(), 1 + g.below(g.chance(1, 2) ? 3 : 700)); break;
      case 1: BN_sub(b.get(), n, (BN_set_word(b.get(), 1 + g.below(300)), b.get())); break;
      case 2: { std::string v = g.bytes(len - 1 - g.below(len - 1)); BN_bin2bn(u8(v), v.size(), b.get()); break; }
      case 3: { std::string v = g.bytes(1 + g.below(len - 2)) + std::string(1 + g.below(4), 0); if (v.size() >= len) v.resize(len - 1); BN_bin2bn(u8(v), v.size(), b.get()); break; }
      case 4: BN_rshift1(b.get(), n); if (g.chance(1, 2)) BN_add_word(b.get(), g.below(4)); break;
      default:
        if (forX) { BN_set_word(b.get(), g.below(300)); BN_add(b.get(), b.get(), n); }  // r = x - n
        else { std::string v(len, static_cast<char>(0x80)); v[0] = nid == NID_secp521r1 ? 0 : 0x7f; BN_bin2bn(u8(v), v.size(), b.get()); }
    }
    return b;
  };
  for (int tries = 0; tries < 200; tries++) {
    bssl::UniquePtr<BIGNUM> x = edge(true), s = edge(false), r(BN_new()), ri(BN_new()), z(BN_bin2bn(u8(h), h.size(), nullptr)), u(BN_new()), v(BN_new());
    bssl::UniquePtr<EC_POINT> R0(EC_POINT_new(grp)), Q(EC_POINT_new(grp));
    ERR_clear_error();
    if (!EC_POINT_set_compressed_coordinates_GFp(grp, R0.get(), x.get(), g.below(2), ctx.get())) continue;
    BN_nnmod(r.get(), x.get(), n, ctx.get());
    BN_nnmod(s.get(), s.get(), n, ctx.get());
    if (BN_is_zero(r.get()) || BN_is_zero(s.get())) continue;
    if (!BN_mod_inverse(ri.get(), r.get(), n, ctx.get())) continue;
    BN_mod_mul(u.get(), s.get(), ri.get(), n, ctx.get());  // of R
    BN_nnmod(z.get(), z.get(), n, ctx.get());
    BN_mod_mul(v.get(), z.get(), ri.get(), n, ctx.get());
    if (!BN_is_zero(v.get())) BN_sub(v.get(), n, v.get());  // of G
    if (!EC_POINT_mul(grp, Q.get(), v.get(), R0.get(), u.get(), ctx.get())) continue;
    if (EC_POINT_is_at_infinity(grp, Q.get()) || !EC_KEY_set_public_key(ec.get(), Q.get())) continue;
    auto k = std::make_shared<Key>();
    k->t = KT::EC; k->name = "own-ec";
    k->pkey.reset(EVP_PKEY_new());
    EVP_PKEY_set1_EC_KEY(k->pkey.get(), ec.get());
    fillEc(*k);
    k->pem = pemPub(k->pkey.get());
    *sig = bnStr(r.get(), len) + bnStr(s.get(), len);
    ERR_clear_error();
    return k;
  }
  ERR_clear_error();
  return nullptr;
}

// An HMAC secret of this case only: of any length, often one that text
// processing would change.
inline std::shared_ptr<Key> freshOct(Rng& g) {
  auto k = std::make_shared<Key>();
  k->t = KT::OCT; k->name = "own"; k->jwkOk = true;
  std::string s = g.bytes(1 + g.below(g.chance(1, 4) ? 300 : 70));
  if (g.chance(1, 3)) for (auto& c : s) c = b64chars()[static_cast<unsigned char>(c) & 63];
  static const std::string odd("\0 \n\r\t=\xff\xef\xbb\xbf\"", 12);
  if (g.chance(1, 2)) s += odd[g.below(odd.size())];
  if (g.chance(1, 3)) s = odd[g.below(odd.size())] + s;
  if (g.chance(1, 12)) s.assign(1 + g.below(130), odd[g.below(odd.size())]);
  if (g.chance(1, 12)) { s = dictStr(g); if (s.empty()) s = "x"; }
  k->secret = s;
  return k;
}

enum class V { NO, YES, OPEN };
// Is `sig` a valid signature of `d` with exactly alg `a` under `k`? OPEN for
// PSS signatures whose salt is not as long as the digest.
inline V validSig(const std::string& a, const Key& k, const std::string& d, const std::string& sig) {
  if (!fits(a, k)) return V::NO;
  V r = V::NO;
  int bits = algBits(a);
  if (a[0] == 'R') {
    std::string h = digest(bits, d);
    int nid = bits == 256 ? NID_sha256 : bits == 384 ? NID_sha384 : NID_sha512;
    if (RSA_verify(nid, u8(h), h.size(), u8(sig), sig.size(), k.rsa())) r = V::YES;
  } else if (a[0] == 'P') {
    std::string h = digest(bits, d);
    if (RSA_verify_pss_mgf1(k.rsa(), u8(h), h.size(), mdOf(bits), mdOf(bits), -1, u8(sig), sig.size())) r = V::YES;
    else if (RSA_verify_pss_mgf1(k.rsa(), u8(h), h.size(), mdOf(bits), mdOf(bits), -2, u8(sig), sig.size())) r = V::OPEN;
  } else if (a == "EdDSA") {
    if (sig.size() == 64 && ED25519_verify(u8(d), d.size(), u8(sig), u8(k.x))) r = V::YES;
  } else if (a[0] == 'E') {
    size_t n = ecLen(k.nid);
    if (sig.size() == 2 * n) {
      bssl::UniquePtr<ECDSA_SIG> g(ECDSA_SIG_new());
      BN_bin2bn(u8(sig), n, g->r);
      BN_bin2bn(u8(sig) + n, n, g->s);
      std::string h = digest(bits, d);
      if (ECDSA_do_verify(u8(h), h.size(), g.get(), k.ec()) == 1) r = V::YES;
    }
  } else {
    if (sig == signHmac(k.secret, bits, d)) r = V::YES;
  }
  ERR_clear_error();
  return r;
}

// The key as a JSON web key.
inline J jwk(const Key& k, const std::string& kid, const std::string& alg, bool hasKid, bool hasAlg, bool crv = true) {
  J j = J::obj();
  switch (k.t) {
    case KT::RSA: j.set("kty", J::str("RSA")).set("n", J::str(b64(k.n))).set("e", J::str(b64(k.e))); break;
    case KT::EC:
      j.set("kty", J::str("EC")).set("x", J::str(b64(k.x))).set("y", J::str(b64(k.y)));
      if (crv) j.set("crv", J::str(crvName(k.nid)));
      break;
    case KT::OCT: j.set("kty", J::str("oct")).set("k", J::str(b64(k.secret))); break;
    case KT::OKP: j.set("kty", J::str("OKP")).set("crv", J::str("Ed25519")).set("x", J::str(b64(k.x))); break;
  }
  if (hasKid) j.set("kid", J::str(kid));
  if (hasAlg) j.set("alg", J::str(alg));
  return j;
}
}  // namespace vh
