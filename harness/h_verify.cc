// C01 soundness, C02 completeness, C03 order independence, C18 diagnosis of
// signature verification: generated key sets x signed tokens x mutations,
// judged by an independent verdict.
#include "sets.h"

using namespace vh;
using google::jwt_verify::verifyJwtWithoutTimeChecking;

namespace {
const std::vector<std::string>& kids() {
  static const auto* v = new std::vector<std::string>{"k1", "k2", "k", "K1", "k1 ", "k11", "b3319a147514df7ee5e4bcdee51350cc890cc89e", "\xc3\xa9", "k\"1",
                                                       std::string("k\0a", 3), std::string("k\0b", 3), std::string("k1\0", 3), std::string("\0", 1), std::string("\0k", 2)};
  return *v;
}
const char* kJunk[] = {"{}", "{\"kty\":\"RSA\"}", "{\"kty\":\"EC\",\"crv\":\"P-256\",\"x\":\"AA\",\"y\":\"AA\"}", "{\"kty\":\"oct\",\"k\":\"\"}", "{\"kty\":\"OKP\",\"crv\":\"X25519\",\"x\":\"AAAA\"}",
                       "7", "null", "\"key\"", "{\"kty\":\"none\",\"kid\":\"k1\"}", "{\"kty\":\"RSA\",\"alg\":\"HS256\",\"kid\":\"k1\",\"n\":\"AQAB\",\"e\":\"AQAB\"}",
                       "{\"kty\":\"OKP\",\"crv\":\"Ed25519\",\"kid\":\"k1\",\"x\":\"AQAB\"}", "[]", "{\"kty\":\"oct\",\"k\":\"+/==\"}"};

struct Tok {
  std::string h64, p64, sig, alg, kid;
  std::string data() const { return h64 + "." + p64; }
  std::string text() const { return h64 + "." + p64 + "." + b64(sig); }
};

// A token whose signed text has exactly a certain length.
void exactLength(Rng& g, Tok* t, J h) {
  static const size_t N[] = {64, 128, 256, 512, 1000, 1024, 2048, 4096, 4096, 8192, 10000, 16384, 32768, 65536};
  size_t n = g.pick(std::vector<size_t>(N, N + 14)) * g.range(1, 4);
  if (g.chance(1, 2)) n += static_cast<size_t>(g.range(-2, 2));
  for (int pad = 0; pad < 3; pad++) {
    if (pad) h.set("pad", J::str(std::string(pad, 'p')));
    std::string h64 = b64(render(h));
    if (h64.size() + 24 > n) return;
    size_t l = n - h64.size() - 1;
    if (l % 4 == 1) continue;
    size_t raw = l * 3 / 4;
    t->h64 = h64;
    t->p64 = b64("{\"x\":\"" + std::string(raw - 8, 'a' + g.below(26)) + "\"}");
    return;
  }
}

Tok makeTok(Rng& g, const std::string& alg, const std::string& kid, bool hasKid, const J* members = nullptr) {
  Tok t;
  t.alg = alg;
  t.kid = kid;
  J h = genHeader(g, alg);
  if (hasKid) h.set("kid", J::str(kid));
  if (members) for (auto& kv : members->o) h.set(kv.first, kv.second);
  g.shuffle(h.o);
  J p = genPayload(g);
  if (g.chance(1, 50)) p.set("big", J::str(std::string(g.below(1 << g.range(8, 17)), 'x')));
  t.h64 = b64(render(h, g.chance(1, 2) ? &g : nullptr));
  t.p64 = b64(render(p, g.chance(1, 2) ? &g : nullptr));
  if (!members && g.chance(1, 30)) exactLength(g, &t, h);
  return t;
}

const Key* keyFor(Rng& g, const std::string& alg) {
  for (;;) {
    const Key* k = pool().all[g.below(pool().all.size())].get();
    if (fits(alg, *k)) {
      if (k->t == KT::RSA && RSA_size(k->rsa()) >= 512 && !g.chance(1, RSA_size(k->rsa()) >= 1024 ? 16 : 4)) continue;
      return k;
    }
  }
}
std::string randKid(Rng& g) {
  if (g.chance(3, 4)) return g.pick(kids());
  if (g.chance(1, 2)) return dictStr(g);
  // long ones that differ at one place
  std::string s(g.chance(1, 2) ? 40 : 1 + dictInt(g, 400), 'k');
  if (g.chance(1, 2)) s[g.chance(1, 2) ? s.size() - 1 : g.below(s.size())] = "aK\0"[g.below(3)];
  return s;
}
const Key* otherKey(Rng& g) { return pool().all[g.below(pool().all.size())].get(); }

SetKey randKey(Rng& g, const Key* k, const std::string& tokAlg, const std::string& tokKid) {
  SetKey s;
  s.k = k;
  s.route = static_cast<Route>(g.below(4));
  if (g.chance(1, 3)) s.route = Route::JWKS;
  s.hasKid = g.chance(2, 3);
  if (s.hasKid) s.kid = g.chance(1, 2) && !tokKid.empty() ? tokKid : g.chance(1, 12) ? "" : g.chance(1, 3) ? nearMiss(g, tokKid) : randKid(g);
  s.hasAlg = g.chance(1, 2);
  if (s.hasAlg) s.alg = g.chance(1, 2) ? tokAlg : g.chance(1, 12) ? "" : g.chance(1, 4) ? nearMiss(g, tokAlg) : g.chance(1, 6) ? g.pick(std::vector<std::string>{"RS", "none", "HS25", "RS2566", "es256", "ES256K", "*"}) : g.pick(allAlgs());
  s.crv = g.chance(3, 4);
  if (g.chance(1, 4)) s.extra = 1 + g.below(1000000);
  return s;
}

std::string orderAdd(int nid, const std::string& s, bool negate) {
  // s + order or order - s, as a string of the curve's length; "" if too long
  bssl::UniquePtr<EC_GROUP> grp(EC_GROUP_new_by_curve_name(nid));
  bssl::UniquePtr<BIGNUM> b(BN_bin2bn(u8(s), s.size(), nullptr)), r(BN_new());
  const BIGNUM* n = EC_GROUP_get0_order(grp.get());
  if (negate) BN_sub(r.get(), n, b.get());
  else BN_add(r.get(), n, b.get());
  if (BN_is_negative(r.get()) || BN_num_bytes(r.get()) > ecLen(nid)) return "";
  return bnStr(r.get(), ecLen(nid));
}

std::string derSig(const Key& k, const std::string& sig) {
  size_t n = ecLen(k.nid);
  bssl::UniquePtr<ECDSA_SIG> s(ECDSA_SIG_new());
  BN_bin2bn(u8(sig), n, s->r);
  BN_bin2bn(u8(sig) + n, n, s->s);
  uint8_t* d = nullptr; size_t len = 0;
  if (!ECDSA_SIG_to_bytes(&d, &len, s.get())) return sig;
  std::string r(reinterpret_cast<char*>(d), len);
  OPENSSL_free(d);
  return r;
}

// Changes a signed token; returns the name of the change. May change `text`
// directly if the change is one of encoding.
std::string mutate(Rng& g, Tok& t, const Key& signer, std::string* text, std::vector<SetKey>* set) {
  const std::string A = t.alg;
  auto flip = [&](std::string& s) { if (!s.empty()) s[g.below(s.size())] ^= static_cast<char>(1 << g.below(8)); };
  for (;;) {
    switch (g.below(36)) {
      case 30: {  // right but for a length that some types cannot tell
        static const size_t N[] = {256, 512, 1024, 4096, 32768, 65536, 131072};
        if (t.sig.empty()) continue;
        size_t n = N[g.below(7)];
        t.sig = g.chance(1, 2) ? t.sig + g.bytes(n) : g.chance(1, 2) ? t.sig + std::string(n, 0) : g.bytes(n) + t.sig;
        return "sig-wrap";
      }
      case 31: {  // only the first (or last) part of a long text is signed
        static const size_t N[] = {256, 1024, 2048, 4096, 8192, 16384, 32768, 65535, 65536};
        size_t n = N[g.below(9)];
        if (g.chance(1, 3)) n = dictInt(g, 100000);
        t.p64 = b64("{\"x\":\"" + std::string(n + g.below(2000), 'a' + g.below(26)) + "\"}");
        std::string d = t.data();
        if (n == 0 || n >= d.size()) continue;
        t.sig = sign(A, signer, g.chance(3, 4) ? d.substr(0, n) : g.chance(1, 2) ? d.substr(d.size() - n) : d.substr(0, d.size() & 0xffff ? d.size() & 0xffff : n));
        return "signed-part";
      }
      case 33: case 34: {  // the token brings the key, or tells where it is
        const Key* o = keyFor(g, A);
        if (o == &signer) continue;
        J m = J::obj();
        switch (g.below(6)) {
          case 0: case 1: m.set("jwk", jwk(*o, t.kid, A, g.chance(1, 2), g.chance(1, 2))); break;
          case 2: m.set("x5c", J::list({J::str(!o->crt.empty() ? o->crt : o->pkey ? b64(derPub(o->pkey.get())) : b64(o->secret))})); break;
          case 3: m.set("jku", J::str("data:application/json," + render(J::obj().set("keys", J::list({jwk(*o, "", "", false, false)}))))); break;
          case 4: m.set(g.chance(1, 2) ? "key" : "pem", J::str(o->pem)); break;
          default: m.set("jwks", J::obj().set("keys", J::list({jwk(*o, t.kid, A, true, g.chance(1, 2))})));
        }
        Tok n = makeTok(g, A, t.kid, !t.kid.empty(), &m);
        n.sig = sign(A, *o, n.data());
        t = n;
        return "header-key";
      }
      case 35: {  // the options of RFC 7797 and RFC 7516 that change what is signed
        J m = J::obj();
        if (g.chance(3, 4)) m.set("b64", J::raw("false")).set("crit", J::list({J::str("b64")}));
        else m.set("zip", J::str("DEF"));
        if (g.chance(1, 3)) m.del("crit");
        Tok n = makeTok(g, A, t.kid, !t.kid.empty(), &m);
        std::string h, p;
        unb64(n.h64, &h);
        unb64(n.p64, &p);
        n.sig = sign(A, signer, g.chance(3, 4) ? n.h64 + "." + p : g.chance(1, 2) ? n.data() : h + "." + p);
        t = n;
        return "b64-option";
      }
      case 29: { std::string w = weakSig(g, A, signer, t.data()); if (w.empty()) continue; t.sig = w; return "weak-sig"; }
      case 0: flip(t.sig); return "flip-sig";
      case 1: { if (t.sig.size() < 2) continue; size_t n = 1 + g.below(t.sig.size() - 1); if (g.chance(1, 2)) n = 1; t.sig = g.chance(1, 2) ? t.sig.substr(n) : t.sig.substr(0, t.sig.size() - n); return "truncate-sig"; }
      case 2: { std::string x = g.chance(1, 2) ? std::string(1 + g.below(4), 0) : g.bytes(1 + g.below(70)); t.sig = g.chance(1, 2) ? t.sig + x : x + t.sig; return "extend-sig"; }
      case 3: t.sig.assign(g.chance(1, 2) ? t.sig.size() : 1 + g.below(600), g.chance(1, 2) ? 0 : static_cast<char>(0xff)); return "const-sig";
      case 4: {
        const Key* o = keyFor(g, A);
        if (o == &signer) continue;
        t.sig = sign(A, *o, t.data());
        return "other-key";
      }
      case 5: {  // alg in the header swapped, signature kept over the new text or not
        std::string B = g.pick(allAlgs());
        if (B == A) continue;
        Tok n = makeTok(g, B, t.kid, !t.kid.empty());
        n.sig = sign(A, signer, g.chance(1, 2) ? n.data() : t.data());
        t = n;
        return "alg-swap";
      }
      case 6: {  // other digest, or other padding
        std::string B = g.pick(allAlgs());
        if (B == A || !typeFits(B, signer)) continue;
        t.sig = sign(B, signer, t.data());
        return "other-digest";
      }
      case 7: case 8: case 9: {  // HMAC keyed with public material
        if (signer.t == KT::OCT) continue;
        std::string m;
        switch (g.below(8)) {
          case 0: m = signer.pem; break;
          case 1: m = derPub(signer.pkey.get()); break;
          case 2: m = signer.t == KT::RSA ? signer.n : signer.x; break;
          case 3: m = signer.x + signer.y; break;
          case 4: m = render(jwk(signer, "", "", false, false)); break;
          case 5: m = signer.pem.substr(0, signer.pem.empty() ? 0 : signer.pem.size() - 1); break;
          case 6: m = "\x04" + signer.x + signer.y; break;
          default: m = ""; break;  // empty secret
        }
        std::string B = "HS" + std::to_string(128 * g.range(2, 4));
        Tok n = makeTok(g, B, t.kid, !t.kid.empty());
        n.sig = signHmac(m, algBits(B), n.data());
        t = n;
        // the key without alg, or claiming the alg of the token
        for (auto& s : *set)
          if (s.junk.empty() && s.k == &signer) {
            s.hasAlg = g.chance(1, 2) && !s.k->pem.empty();
            s.alg = s.hasAlg ? B : "";
            if (s.hasAlg) s.route = Route::PEMKA;
          }
        return "hmac-public";
      }
      case 10: {  // base64url character of the signed text changed
        std::string& s = g.chance(1, 2) ? t.h64 : t.p64;
        size_t i = g.chance(1, 3) ? s.size() - 1 : g.below(s.size());
        int v = b64val(s[i]);
        s[i] = b64chars()[v ^ (g.chance(1, 2) ? 1 : 1 << g.below(6))];
        return "flip-text";
      }
      case 11: {  // same decoded text, other encoding
        *text = t.text();
        std::string s = g.chance(1, 2) ? t.h64 : t.p64;
        std::string s2 = s;
        int w = static_cast<int>(g.below(3));
        if (w == 0 && s.size() % 4) s2 += std::string(4 - s.size() % 4, '=');
        else if (w == 1) s2.insert(g.below(s.size() + 1), 1, " \t\n\r"[g.below(4)]);
        else if (s.size() % 4) { int v = b64val(s.back()); s2.back() = b64chars()[v ^ 1]; }
        else continue;
        *text = (s == t.h64 ? s2 + "." + t.p64 : t.h64 + "." + s2) + "." + b64(t.sig);
        return "reencode-text";
      }
      case 12: {  // same signature, other encoding
        std::string s = b64(t.sig);
        if (s.size() % 4 && g.chance(1, 2)) s += std::string(4 - s.size() % 4, '=');
        else s.insert(g.below(s.size() + 1), 1, ' ');
        *text = t.data() + "." + s;
        return "reencode-sig";
      }
      case 13: {
        std::string d;
        switch (g.below(6)) {
          case 0: { std::string h, p; unb64(t.h64, &h); unb64(t.p64, &p); d = h + "." + p; break; }
          case 1: d = t.p64; break;
          case 2: d = t.h64; break;
          case 3: d = t.h64 + t.p64; break;
          case 4: d = t.data() + "."; break;
          default: d = t.p64 + "." + t.h64; break;
        }
        t.sig = sign(A, signer, d);
        return "other-data";
      }
      case 14: {  // spliced from two valid tokens
        Tok n = makeTok(g, A, t.kid, !t.kid.empty());
        if (g.chance(1, 2)) t.p64 = n.p64;
        else { n.sig = sign(A, signer, n.data()); t.sig = n.sig; }
        return "splice";
      }
      case 15: {
        *text = t.text();
        switch (g.below(5)) {
          case 0: *text += "."; break;
          case 1: *text += ".AAAA"; break;
          case 2: *text = t.data() + ".." + b64(t.sig); break;
          case 3: *text = t.data() + "."; break;
          default: *text = "." + *text; break;
        }
        return "dots";
      }
      case 16: case 17: case 18: {
        if (signer.t != KT::EC || t.sig.size() != 2 * ecLen(signer.nid)) continue;
        size_t n = ecLen(signer.nid);
        std::string r = t.sig.substr(0, n), s = t.sig.substr(n);
        switch (g.below(8)) {
          case 0: t.sig = s + r; return "ec-swap";
          case 1: { std::string x = orderAdd(signer.nid, s, true); t.sig = r + x; return "ec-neg-s"; }  // also valid
          case 2: { std::string x = orderAdd(signer.nid, r, false); if (x.empty()) continue; t.sig = x + s; return "ec-r-plus-n"; }
          case 3: t.sig = derSig(signer, t.sig); return "ec-der";
          case 4: t.sig = std::string(1, 0) + r + std::string(1, 0) + s; return "ec-pad-front";
          case 5: t.sig = r + s + std::string(1, 0); return "ec-odd";
          case 6: { std::string z(n, 0); t.sig = g.chance(1, 2) ? z + s : r + z; return "ec-zero-half"; }
          default: t.sig = r + std::string(1, 0) + s; return "ec-pad-mid";
        }
      }
      case 19: {
        if (signer.t != KT::RSA) continue;
        // s + n, of the same length or one more
        bssl::UniquePtr<BIGNUM> b(BN_bin2bn(u8(t.sig), t.sig.size(), nullptr)), r(BN_new());
        const BIGNUM* n;
        RSA_get0_key(signer.rsa(), &n, nullptr, nullptr);
        BN_add(r.get(), b.get(), n);
        t.sig = bnStr(r.get());
        return "rsa-plus-n";
      }
      case 20: {
        if (signer.t != KT::RSA) continue;
        // PKCS #1 block without the digest info, or with that of another hash
        std::string h = digest(algBits(A), t.data()), s(RSA_size(signer.rsa()), 0);
        size_t n = 0;
        if (!RSA_sign_raw(signer.rsa(), &n, reinterpret_cast<uint8_t*>(&s[0]), s.size(), u8(h), h.size(), RSA_PKCS1_PADDING)) { ERR_clear_error(); continue; }
        t.sig = s;
        return "rsa-no-digestinfo";
      }
      case 21: {
        if (A[0] != 'P' || signer.t != KT::RSA) continue;
        int salts[] = {0, 1, 20, -2};
        std::string s = signPss(signer, algBits(A), t.data(), salts[g.below(3)]);
        if (s.empty()) continue;
        t.sig = s;
        return "pss-salt";
      }
      case 22: {
        if (signer.t != KT::OKP || t.sig.size() != 64) continue;
        // S + L
        static const uint8_t L[32] = {0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10};
        unsigned c = 0;
        for (int i = 0; i < 32; i++) { c += static_cast<uint8_t>(t.sig[32 + i]) + L[i]; t.sig[32 + i] = static_cast<char>(c); c >>= 8; }
        return "ed-s-plus-l";
      }
      case 23: {  // any key signs with whatever it can
        const Key* o = otherKey(g);
        std::string B = g.pick(allAlgs());
        std::string s = sign(B, *o, t.data());
        if (s.empty()) continue;
        t.sig = s;
        return "any-sig";
      }
      case 24: {
        if (signer.t != KT::OCT) continue;
        std::string full = sign(A, signer, t.data());
        if (full.size() < 17) continue;
        t.sig = full.substr(0, g.chance(1, 2) ? 16 : g.below(full.size() - 1) + 1);
        return "hmac-prefix";
      }
      case 25: {  // token says a curve, the key is on another one
        if (signer.t != KT::EC) continue;
        std::string B = "ES" + std::to_string(g.chance(1, 2) ? 256 : g.chance(1, 2) ? 384 : 512);
        if (B == A) continue;
        Tok n = makeTok(g, B, t.kid, !t.kid.empty());
        n.sig = sign(B, signer, n.data());
        t = n;
        for (auto& s : *set)
          if (s.junk.empty() && s.k == &signer) {
            s.hasAlg = g.chance(1, 2);
            s.alg = s.hasAlg ? B : "";
            if (s.hasAlg && !s.k->pem.empty()) s.route = Route::PEMKA;
          }
        return "cross-curve";
      }
      case 26: {
        t.sig = g.chance(1, 2) ? t.h64 : digest(256, t.data());
        return "text-as-sig";
      }
      case 27: {  // another kid in the token
        Tok n = makeTok(g, A, randKid(g), true);
        n.sig = sign(A, signer, n.data());
        t = n;
        return "other-kid";
      }
      case 28: { if (t.sig.empty()) continue; t.sig.back() ^= 1; return "flip-last"; }
      default: { if (t.sig.empty()) continue; t.sig[0] ^= static_cast<char>(0x80); return "flip-first"; }
    }
  }
}

// RSA keys of 4096 bits are slow under every check: not in big sets
struct Case {
  std::string alg;
  const Key* signer;
  std::vector<SetKey> set;
  std::string text, what;
  std::shared_ptr<Key> own;  // a key of this case only
  const Key* hold(std::shared_ptr<Key> k) { own = k; return own.get(); }
};

Case genCase(Rng& g, const std::string& prop) {
  Case c;
  c.alg = g.chance(1, 4) ? g.pick(std::vector<std::string>{"ES256", "ES384", "ES512", "EdDSA"}) : g.pick(allAlgs());
  c.signer = keyFor(g, c.alg);
  if (c.alg[0] == 'H' && g.chance(1, 3)) c.signer = c.hold(freshOct(g));
  bool hasKid = g.chance(2, 3);
  std::string kid = hasKid ? (g.chance(1, 12) ? "" : randKid(g)) : "";
  bool mut = prop == "C01" ? g.chance(5, 6) : prop == "C02" ? g.chance(1, 20) : g.chance(1, 2);
  Tok t = makeTok(g, c.alg, kid, hasKid);
  t.sig = sign(c.alg, *c.signer, t.data());
  bool edge = false;
  if (c.alg[0] == 'E' && c.alg != "EdDSA" && g.chance(1, 4)) {
    std::string sig;
    if (auto k = edgeEc(g, curveOf(c.alg), digest(algBits(c.alg), t.data()), &sig)) {
      c.signer = c.hold(k);
      t.sig = sig;
      edge = true;
      R().count("ec_edge_signatures");
    }
  }
  // leading zero bytes in the signature
  if (edge) {
  } else if (prop != "C03" && g.chance(1, 12) && c.signer->t != KT::RSA) {
    for (int i = 0; i < 200; i++) {
      bool z = t.sig[0] == 0 || (c.signer->t == KT::EC && t.sig[t.sig.size() / 2] == 0) || t.sig.back() == 0;
      if (z) { R().count("sig_with_zero_edge"); break; }
      if (c.signer->t != KT::EC) t = makeTok(g, c.alg, kid, hasKid);
      t.sig = sign(c.alg, *c.signer, t.data());
    }
  } else if (prop == "C02" && c.signer->name == "rsa1024" && g.chance(1, 2) && !t.sig.empty()) {
    for (int i = 0; i < 400 && !t.sig.empty() && t.sig[0] != 0; i++) {
      t.p64 = b64("{\"n\":" + std::to_string(i) + "}");
      t.sig = sign(c.alg, *c.signer, t.data());
    }
    if (!t.sig.empty() && t.sig[0] == 0) R().count("rsa_sig_leading_zero");
  }
  int n = g.chance(1, 4) ? 1 : g.range(1, 5);
  bool many = g.chance(1, 60);
  if (many) n = static_cast<int>(dictInt(g, 80));
  bool huge = g.chance(1, 400), noX509 = g.chance(5, 6);  // hundreds of keys, mostly cheap ones
  if (huge) {
    n = static_cast<int>(g.chance(1, 2) ? dictInt(g, 1300) : 80 + g.below(1000));
    many = true;
    R().count(n > 256 ? "sets_over_256_keys" : "sets_of_up_to_256_keys");
  }
  bool include = prop == "C01" ? g.chance(2, 3) : prop == "C18" ? g.chance(1, 2) : g.chance(9, 10);
  for (int i = 0; i < n; i++) {
    const Key* k = g.chance(1, 2) ? keyFor(g, c.alg) : otherKey(g);
    if (c.own && g.chance(1, 4)) k = c.signer;
    if (k == c.signer && !include) continue;
    if (many && k->t == KT::RSA && !g.chance(1, 4)) continue;
    if (huge && (k->t == KT::RSA || k->t == KT::EC) && !g.chance(1, 20)) k = g.pick(pool().oct);
    SetKey s = randKey(g, k, c.alg, kid);
    if (huge && noX509 && s.route == Route::X509) s.route = Route::JWKS;
    if (prop != "C01" && g.chance(1, 8)) s.junk = kJunk[g.below(sizeof kJunk / sizeof *kJunk)];
    c.set.push_back(s);
  }
  if (include) {
    SetKey s = randKey(g, c.signer, c.alg, kid);
    if (prop == "C02" || g.chance(3, 4)) {  // make it match
      if (s.hasKid && hasKid && !s.kid.empty()) s.kid = kid;
      if (s.hasAlg && !s.alg.empty()) s.alg = c.alg;
      if (s.hasKid && s.kid.empty()) s.hasKid = false;
      if (s.route == Route::X509 && !hasKid) s.kid = "any";
      if (huge && noX509 && s.route == Route::X509) s.route = Route::JWKS;
    }
    c.set.insert(huge && g.chance(1, 2) ? c.set.end() : c.set.begin() + g.below(c.set.size() + 1), s);
  }
  c.what = "valid";
  if (mut) c.what = mutate(g, t, *c.signer, &c.text, &c.set);
  if (c.text.empty()) c.text = t.text();
  legalizeSet(c.set, g);
  return c;
}

std::string inputOf(const Case& c, const std::string& docs) {
  return "token: " + c.text + "\nchange: " + c.what + "\nset: " + describe(c.set) + "\n" + docs;
}

// Verifies against the set and judges the status.
void judge(Run& r, const Case& c, const Jwt& j, Status ps, const Parsed& p, const Jwks& set, const std::string& docs, const char* how) {
  Status v = verifyJwtWithoutTimeChecking(j, set);
  r.count("status:" + std::to_string(static_cast<int>(v)));
  // Independent verdict.
  bool yes = false, open = false, anyKidAlg = false, typed = false, edEligible = false;
  if (!p.mustReject()) {
    std::string data = p.h64 + "." + p.p64;
    for (auto& s : c.set) {
      if (!s.junk.empty()) continue;
      if (!kidOk(p.kid, s) || !algOk(p.alg, s)) continue;
      anyKidAlg = true;
      if (typeFits(p.alg, *s.k)) typed = true;
      if (p.alg == "EdDSA" && s.k->t == KT::OKP) edEligible = true;
      V q = validSig(p.alg, *s.k, data, p.sig);
      if (q == V::YES) yes = true;
      if (q == V::OPEN) open = true;
    }
  }
  auto input = [&] { return std::string(how) + "\n" + inputOf(c, docs); };
  uint64_t fp = fnv(c.text, fnv(describe(c.set)));
  r.eval(fp, c.set.size() > 0 && (r.prop != "C02" || yes) && (r.prop != "C01" || !yes) && (r.prop != "C18" || !yes));
  if (r.samples.size() < 3 && fp % 10 == 0) r.sample(inputOf(c, "") + "-> " + statusName(v));
  r.count(yes ? "oracle:valid" : open ? "oracle:open" : "oracle:invalid");

  if (r.prop == "C01") {
    if (v == Status::Ok && !yes && !open)
      r.fail("C01/" + c.what, "accepted, but no eligible key has a valid signature", input());
    if (v == Status::Ok && p.mustReject()) r.fail("C01/malformed", "malformed token accepted by verification", input());
  }
  if (r.prop == "C02" && yes && !p.lenient && v != Status::Ok)
    r.fail("C02/" + c.alg, "rejected with " + statusName(v) + ", but an eligible key has a valid signature", input());
  if (r.prop == "C18" && ps == Status::Ok && !yes && !open && !p.mustReject()) {
    bool bad = false;
    std::string want;
    bool wrongLen = edEligible && p.sig.size() != 64;
    if (!anyKidAlg) { bad = v != Status::JwksKidAlgMismatch; want = "no key matches kid and alg: JwksKidAlgMismatch"; }
    else if (wrongLen) { bad = v != Status::JwtEd25519SignatureWrongLength; want = "wrong length for Ed25519"; }
    else if (typed) { bad = v != Status::JwtVerificationFail; want = "a key matches kid, alg and type: JwtVerificationFail"; }
    else { bad = v != Status::JwtVerificationFail && v != Status::JwksKidAlgMismatch; want = "JwtVerificationFail or JwksKidAlgMismatch"; }
    r.count(!anyKidAlg ? "expect:mismatch" : wrongLen ? "expect:ed-length" : typed ? "expect:fail" : "expect:fail-or-mismatch");
    if (bad) r.fail("C18/" + want, "got " + statusName(v) + ", want " + want, input());
  }
}

void evalCase(Run& r) {
  Rng g = r.caseRng();
  Case c = genCase(g, r.prop);
  Rng rg(g.u64());
  std::string docs;
  JwksPtr set = buildSet(c.set, g.chance(1, 3) ? &rg : nullptr, &docs);
  Jwt j;
  Status ps = j.parseFromString(c.text);
  Parsed p = oracleParse(c.text);
  r.count("change:" + c.what);
  if (ps != Status::Ok && p.mustAccept() && r.prop == "C02")
    r.fail("C02/parse", "well-formed token rejected by the parser: " + statusName(ps), inputOf(c, docs));
  judge(r, c, j, ps, p, *set, docs, "fresh");
  // The same token against another set, then against this one again.
  if (g.chance(1, 3)) {
    Case d = genCase(g, r.prop);
    Case e = c;
    e.set = d.set;
    std::string docs2;
    JwksPtr set2 = buildSet(e.set, nullptr, &docs2);
    judge(r, e, j, ps, p, *set2, docs2, "after another set");
    judge(r, c, j, ps, p, *set, docs, "again, after another set");
    // the other token against both
    Jwt j2;
    Status ps2 = j2.parseFromString(d.text);
    Parsed p2 = oracleParse(d.text);
    judge(r, d, j2, ps2, p2, *set2, docs2, "second token");
    d.set = c.set;
    judge(r, d, j2, ps2, p2, *set, docs, "second token, first set");
  }
  // Tokens that share parts with this one, against the same set: none of them
  // may profit (or suffer) from what was verified before.
  if (!p.mustReject() && g.chance(1, 3)) {
    Jwt shared;
    Jwt* jp = g.chance(1, 2) ? &shared : nullptr;
    for (int i = g.range(1, 4); i--;) {
      Case e = c;
      Tok n = makeTok(g, p.alg, p.kid, !p.kid.empty());
      std::string h = p.h64, q = p.p64, sg = p.s64;
      switch (g.below(7)) {
        case 0: q = n.p64; e.what = "sibling-payload"; break;
        case 1: h = n.h64; e.what = "sibling-header"; break;
        case 2: { std::string s = p.sig; if (!s.empty()) s[g.below(s.size())] ^= 1; sg = b64(s); e.what = "sibling-sig"; break; }
        case 3: { std::string s = sign(p.alg, *keyFor(g, p.alg), h + "." + q); if (s.empty()) continue; sg = b64(s); e.what = "sibling-other-key"; break; }
        case 4: { n = makeTok(g, p.alg, randKid(g), true); h = n.h64; std::string s = sign(p.alg, *c.signer, h + "." + q); if (s.empty()) continue; sg = b64(s); e.what = "sibling-other-kid"; break; }
        case 5: { q = n.p64; std::string s = sign(p.alg, *c.signer, h + "." + q); if (s.empty()) continue; sg = b64(s); e.what = "sibling-resigned"; break; }
        default: {  // one byte of the payload changed
          std::string d;
          unb64(q, &d);
          for (size_t k = 0; k < d.size(); k++) if (d[k] >= '0' && d[k] <= '8') { d[k]++; break; }
          q = b64(d);
          e.what = "sibling-digit";
        }
      }
      e.text = h + "." + q + "." + sg;
      Jwt own;
      Jwt& x = jp ? *jp : own;
      Status es = x.parseFromString(e.text);
      Parsed ep = oracleParse(e.text);
      r.count(e.what);
      judge(r, e, x, es, ep, *set, docs, "after a token it shares parts with");
      if (g.chance(1, 2)) judge(r, c, j, ps, p, *set, docs, "again, after tokens it shares parts with");
    }
    if (jp && g.chance(1, 2)) {
      Status es = jp->parseFromString(c.text);
      judge(r, c, *jp, es, p, *set, docs, "parsed again, after tokens it shares parts with");
    }
  }
  // A key added to a set that was in use.
  if (g.chance(1, 4) && !c.signer->pem.empty()) {
    SetKey s = randKey(g, g.chance(2, 3) ? c.signer : otherKey(g), c.alg, p.kid);
    s.route = Route::PEMKA;
    if (!s.k->pem.empty()) {
      if (!s.hasKid) s.kid = "";
      if (!s.hasAlg) s.alg = "";
      set->addKeyFromPem(s.k->pem, s.kid, s.alg);
      c.set.push_back(s);
      judge(r, c, j, ps, p, *set, docs + "then added: " + describe(s), "key added later");
    }
  }
}

// C01: every single-bit change of the signature, and every single-character
// change of a sample of positions of the signed text, of one token.
void sweep(Run& r) {
  Rng g = r.caseRng();
  Case c;
  c.alg = allAlgs()[(r.cur / 41) % allAlgs().size()];
  do c.signer = keyFor(g, c.alg); while (c.signer->t == KT::RSA && RSA_size(c.signer->rsa()) >= 512);
  SetKey s;
  s.k = c.signer;
  s.hasAlg = g.chance(1, 2);
  s.alg = s.hasAlg ? c.alg : "";
  s.route = g.chance(1, 2) ? Route::JWKS : Route::PEMKA;
  c.set.push_back(s);
  legalizeSet(c.set, g);
  std::string docs;
  JwksPtr set = buildSet(c.set, nullptr, &docs);
  Tok t = makeTok(g, c.alg, "", false);
  while (t.p64.size() > 2000) t = makeTok(g, c.alg, "", false);
  t.sig = sign(c.alg, *c.signer, t.data());
  if (t.sig.empty()) return;
  auto one = [&](const Tok& m, const char* what) {
    c.what = what;
    c.text = m.text();
    Jwt j;
    Status ps = j.parseFromString(c.text);
    if (ps != Status::Ok) { r.count("sweep_unparsable"); return; }
    Status v = verifyJwtWithoutTimeChecking(j, *set);
    r.eval(fnv(c.text));
    r.count(what);
    if (v == Status::Ok && validSig(m.alg, *c.signer, m.data(), m.sig) == V::NO) r.fail(std::string("C01/") + what, "accepted, but no eligible key has a valid signature", inputOf(c, docs));
  };
  for (size_t i = 0; i < t.sig.size() * 8; i++) {
    Tok m = t;
    m.sig[i / 8] ^= static_cast<char>(1 << (i % 8));
    one(m, "sweep:sig-bit");
  }
  for (size_t n = 1; n < t.sig.size(); n++) {
    Tok m = t;
    m.sig.resize(n);
    one(m, "sweep:sig-prefix");
    m.sig = t.sig.substr(n);
    one(m, "sweep:sig-suffix");
  }
  for (int i = 0; i < 200; i++) {
    Tok m = t;
    std::string& x = g.chance(1, 2) ? m.h64 : m.p64;
    size_t k = g.below(x.size());
    x[k] = b64chars()[b64val(x[k]) ^ (1 << g.below(6))];
    one(m, "sweep:text");
  }
}

// One good signature, and a key that would do but for its kid or alg, which is
// close to that of the token.
void nearMisses(Run& r) {
  Rng g = r.caseRng();
  Case c;
  do { c.alg = g.pick(allAlgs()); c.signer = keyFor(g, c.alg); } while (c.signer->t == KT::RSA && RSA_size(c.signer->rsa()) >= 512);
  std::string kid = g.chance(1, 3) ? randKid(g) : g.pick(std::vector<std::string>{"k1", "key-2024-01", "a", "https://issuer.example/keys/1", "tenant:key", "1", "AbCdEf", "b3319a147514df7ee5e4bcdee51350cc890cc89e"});
  Tok t = makeTok(g, c.alg, kid, !kid.empty());
  t.sig = sign(c.alg, *c.signer, t.data());
  if (t.sig.empty()) return;
  c.text = t.text();
  c.what = "near-miss";
  Jwt j;
  Status ps = j.parseFromString(c.text);
  Parsed p = oracleParse(c.text);
  for (int i = 0; i < 40; i++) {
    SetKey s;
    s.k = c.signer;
    s.route = static_cast<Route>(g.below(4));
    bool byAlg = !s.k->pem.empty() && (kid.empty() || g.chance(1, 3));
    if (!byAlg && kid.empty()) continue;
    s.hasAlg = byAlg || g.chance(1, 3);
    s.alg = byAlg ? nearMiss(g, c.alg) : s.hasAlg ? c.alg : "";
    s.hasKid = !byAlg || g.chance(1, 2);
    s.kid = byAlg ? (s.hasKid ? kid : "") : nearMiss(g, kid);
    if (byAlg) s.route = Route::PEMKA;
    std::vector<SetKey> v{s};
    if (g.chance(1, 4)) { SetKey o = randKey(g, otherKey(g), c.alg, kid); o.hasKid = true; o.kid = nearMiss(g, kid); if (o.kid.empty()) continue; v.insert(v.begin() + g.below(2), o); }
    legalizeSet(v, g);
    c.set = v;
    std::string docs;
    JwksPtr set = buildSet(c.set, nullptr, &docs);
    r.count("near_misses");
    judge(r, c, j, ps, p, *set, docs, "near miss");
  }
}

// A crowd of keys that all have the token's kid and alg, none of which made the
// signature, in numbers where a counter of 8 or 16 bits would wrap; then the
// same with the right key among them.
void crowd(Run& r) {
  Rng g = r.caseRng();
  bool vast = g.chance(1, 6);
  size_t n = g.pick(std::vector<size_t>{256, 256, 512, 768, 1024, 128});
  if (vast) n = 65536;
  n = n + g.pick(std::vector<size_t>{0, 0, 0, 1}) - (g.chance(1, 6) ? 1 : 0);
  std::string alg = g.pick(vast ? std::vector<std::string>{"HS256", "HS384", "HS512"} : std::vector<std::string>{"HS256", "HS384", "HS512", "EdDSA"});
  std::string kid = g.chance(2, 3) ? "k" : "";
  bool keyAlg = g.chance(1, 2);
  std::string secret = g.bytes(1 + g.below(64)), pub(32, 0), priv(64, 0), seed = g.bytes(32);
  ED25519_keypair_from_seed(reinterpret_cast<uint8_t*>(&pub[0]), reinterpret_cast<uint8_t*>(&priv[0]), u8(seed));
  auto entry = [&](const std::string& k) {
    std::string e = alg == "EdDSA" ? "{\"kty\":\"OKP\",\"crv\":\"Ed25519\",\"x\":\"" : "{\"kty\":\"oct\",\"k\":\"";
    return e + b64(k) + "\"" + (kid.empty() ? "" : ",\"kid\":\"" + kid + "\"") + (keyAlg ? ",\"alg\":\"" + alg + "\"" : "") + "}";
  };
  std::string data = b64("{\"alg\":\"" + alg + "\"" + (kid.empty() ? "" : ",\"kid\":\"" + kid + "\"") + "}") + "." + b64("{\"n\":" + std::to_string(g.below(1000)) + "}");
  Key k;
  k.t = alg == "EdDSA" ? KT::OKP : KT::OCT;
  k.secret = alg == "EdDSA" ? priv : secret;
  std::string sig = sign(alg, k, data), right = entry(alg == "EdDSA" ? pub : secret);
  size_t at = g.chance(1, 2) ? n : g.below(n + 1);
  std::string doc;
  for (int with = 0; with < 2; with++) {
    doc = "{\"keys\":[";
    bool first = true;
    auto put = [&](const std::string& e) { doc += (first ? "" : ",") + e; first = false; };
    for (size_t i = 0; i < n; i++) {
      if (with && i == at) put(right);
      std::string w = std::to_string(i) + "-wrong-key-of-32-octets-or-more---";
      put(entry(alg == "EdDSA" ? w.substr(0, 32) : w));
    }
    if (with && at == n) put(right);
    doc += "]}";
    JwksPtr set = Jwks::createFrom(doc, Jwks::JWKS);
    Jwt j;
    Status ps = j.parseFromString(data + "." + b64(sig));
    if (ps != Status::Ok) r.harnessError("crowd token does not parse");
    Status v = verifyJwtWithoutTimeChecking(j, *set);
    r.count(with ? "crowd:with-key" : "crowd:without-key");
    if (vast) r.count("crowd:65536");
    r.eval(fnv(data, n * 2 + with));
    std::string in = std::to_string(n) + " wrong keys, alg " + alg + ", kid " + kid + (with ? ", the right key at " + std::to_string(at) : "") + "\ntoken: " + data + "." + b64(sig) + "\nfirst entries: " + doc.substr(0, 300);
    if (with && v != Status::Ok && (r.prop == "C02" || r.prop == "C03")) r.fail(r.prop + "/crowd", "rejected with " + statusName(v) + " among many keys", in);
    if (!with && v == Status::Ok) r.fail(r.prop + "/crowd", "accepted without the right key", in);
    if (!with && v != Status::JwtVerificationFail && r.prop == "C18") r.fail("C18/crowd", "got " + statusName(v) + " although every key matches kid, alg and type", in);
    if (set->keys().size() != n + with) { if (r.prop == "C02" || r.prop == "C03") r.fail(r.prop + "/crowd-import", std::to_string(set->keys().size()) + " keys imported, want " + std::to_string(n + with), in); }
  }
}

// C03: the verdict of a set is the disjunction of the verdicts of its keys
// alone, and stays the same when the set is reordered, repeated, or extended
// by keys that alone reject the token.
void evalC03(Run& r) {
  Rng g = r.caseRng();
  Case c = genCase(g, r.prop);
  Jwt j;
  if (j.parseFromString(c.text) != Status::Ok) { r.count("unparsable"); return; }
  bool any = false;
  std::vector<char> alone;
  std::string trace;
  for (auto& s : c.set) {
    std::vector<SetKey> one{s};
    JwksPtr k = buildSet(one, nullptr);
    bool ok = verifyJwtWithoutTimeChecking(j, *k) == Status::Ok;
    alone.push_back(ok);
    any |= ok;
    trace += ok ? '1' : '0';
  }
  auto check = [&](const std::vector<SetKey>& v, const char* how) {
    std::string docs;
    JwksPtr k = buildSet(v, nullptr, &docs);
    Status st = verifyJwtWithoutTimeChecking(j, *k);
    r.eval(fnv(c.text, fnv(describe(v))), v.size() > 1);
    if ((st == Status::Ok) != any)
      r.fail(std::string("C03/") + how, "set gives " + statusName(st) + ", keys alone give " + trace + "\nset: " + describe(v), inputOf(c, docs));
  };
  check(c.set, "set");
  int perms = c.set.size() > 1 ? 4 : 1;
  for (int i = 0; i < perms; i++) {
    auto v = c.set;
    g.shuffle(v);
    check(v, "permuted");
  }
  {
    auto v = c.set;
    auto w = c.set;
    v.insert(v.end(), w.begin(), w.end());
    bool x = false;
    for (auto& s : v) x |= s.junk.empty() && s.route == Route::X509;
    if (!x) { g.shuffle(v); check(v, "repeated"); }
  }
  // extensions by keys that reject
  auto v = c.set;
  int n = g.range(1, 4);
  bool x = false;
  for (auto& s : v) x |= s.junk.empty() && s.route == Route::X509;
  while (n--) {
    SetKey s = randKey(g, otherKey(g), c.alg, j.kid_);
    if (g.chance(1, 3)) s.junk = kJunk[g.below(sizeof kJunk / sizeof *kJunk)];
    if (s.route == Route::X509) s.route = Route::PEMKA;
    if (x) { s.junk.clear(); if (s.k->pem.empty()) continue; s.route = Route::PEMKA; }
    legalize(s, g);
    if (x && s.route == Route::JWKS) continue;
    std::vector<SetKey> one{s};
    JwksPtr k = buildSet(one, nullptr);
    if (verifyJwtWithoutTimeChecking(j, *k) == Status::Ok) continue;
    v.insert(v.begin() + g.below(v.size() + 1), s);
  }
  check(v, "extended");
  r.count(any ? "accepted_sets" : "rejected_sets");
  if (r.samples.size() < 3 && g.chance(1, 10)) r.sample(inputOf(c, "") + " alone=" + trace);
}
}  // namespace

int main(int argc, char** argv) {
  return runMain(argc, argv,
                 [] {
                   const char* d = getenv("VERIF_KEYS");
                   pool().load(d ? d : "/verif/keys", R().seed);
                   // Every key of the pool must import, by every route, as
                   // itself: otherwise the oracle of this harness is off.
                 },
                 [](Run& r) { if (r.cur % 601 == 5) crowd(r);
                   else if (r.prop == "C03") evalC03(r);
                   else if (r.prop == "C01" && r.cur % 41 == 0) sweep(r);
                   else if (r.cur % 23 == 7) nearMisses(r);
                   else evalCase(r); });
}
