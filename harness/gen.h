// Generators of tokens and key documents, well-formed and hostile.
#pragma once
#include "sets.h"

namespace vh {
static const char* const kCertPre = "-----BEGIN CERTIFICATE-----\n";
static const char* const kCertSuf = "\n-----END CERTIFICATE-----\n";

inline const std::vector<std::string>& badAlgs() {
  static const auto* v = new std::vector<std::string>{"", "none", "None", "es256", "ES256K", "RS", "RS25", "RS2566", "HS256 ", " HS256", "Ed25519", "EdDS", "eddsa", "HS128", "PS128",
                                                      "ES521", "RS256,HS256", "dir", "A128KW", std::string("RS256\0", 6), std::string("HS256\0x", 7), "RSA", "HS", "E", "*", "ES256\n", "RS256RS256", "PS1", "HS1", "RS1", "ES1", "EdDSA2"};
  return *v;
}

inline std::string breakJson(Rng& g, const std::string& s) {
  switch (g.below(14)) {
    case 0: return s.substr(0, g.below(s.size()));
    case 1: return s + g.pick(std::vector<std::string>{"x", "{}", "}", ",", std::string(1, 0), "\xff", "null"});
    case 2: return g.pick(std::vector<std::string>{"", " ", "null", "[]", "7", "\"s\"", "true", "nul", "[{}]", "{", "}", "\xef\xbb\xbf{}"});
    case 3: return "{\"a\":1,\"a\":1}";
    case 4: return "{\"alg\":\"RS256\",\"alg\":\"RS256\"}";
    case 5: return "{\"x\":1e999}";
    case 6: return "{\"x\":" + g.pick(std::vector<std::string>{"NaN", "Infinity", "-Infinity", "01", "0x10", "+1", ".5", "1.", "1e", "--1", "tru"}) + "}";
    case 7: return "{\"x\":\"" + g.pick(std::vector<std::string>{"\xff", "\xc0\x80", "\xed\xa0\x80", "\x80", "\\x41", "\\u12", "\\ud800", "\n", std::string(1, 0)}) + "\"}";
    case 8: { std::string r = s; r.erase(g.below(r.size()), 1); return r; }
    case 9: { std::string r = s; r.insert(g.below(r.size() + 1), 1, static_cast<char>(g.u64())); return r; }
    case 10: { std::string r = s; r[g.below(r.size())] ^= static_cast<char>(1 << g.below(8)); return r; }
    case 11: { std::string d; int n = g.range(80, 130); for (int i = 0; i < n; i++) d += "["; for (int i = 0; i < n; i++) d += "]"; return "{\"x\":" + d + "}"; }
    case 12: { std::string d; int n = g.range(80, 130); for (int i = 0; i < n; i++) d += "{\"a\":"; d += "1"; for (int i = 0; i < n; i++) d += "}"; return d; }
    default: return "{'a':1}";
  }
}

inline std::string breakB64(Rng& g, std::string s) {
  static const char bad[] = "+/%!@ \t=,:\x80\xff\0\"'\\~";
  switch (g.below(5)) {
    case 0: s += 'A'; while (s.size() % 4 != 1) s += 'A'; return s;
    case 1: if (!s.empty()) { s[g.below(s.size())] = bad[g.below(sizeof bad - 1)]; return s; } return "+";
    case 2: s.insert(g.below(s.size() + 1), 1, bad[g.below(sizeof bad - 1)]); return s;
    case 3: return s + "=" + s;
    default: s += bad[g.below(sizeof bad - 1)]; return s;
  }
}

struct T {
  J h, p;
  std::string sig;
  bool astOk = true;    // text is exactly the rendering of h and p
  std::string rawH, rawP;
  std::string text;
  std::string what;
};

inline void genDefect(Rng& g, T& t, std::string* h64, std::string* p64, std::string* s64, int stage);

inline T genToken(Rng& g, int ndefects) {
  T t;
  t.h = genHeader(g, g.pick(allAlgs()));
  if (g.chance(1, 2)) t.h.set("kid", J::str(genStr(g)));
  g.shuffle(t.h.o);
  t.p = genPayload(g);
  int n = g.chance(1, 8) ? g.range(1, 4) : g.chance(1, 2) ? static_cast<int>(32 * g.below(17)) : static_cast<int>(g.below(300));
  t.sig = g.bytes(n ? n : 1);
  std::vector<int> stages;
  for (int i = 0; i < ndefects; i++) stages.push_back(static_cast<int>(g.below(18)));
  for (int s : stages) if (s < 12) genDefect(g, t, nullptr, nullptr, nullptr, s);
  t.rawH = render(t.h, g.chance(2, 3) ? &g : nullptr);
  t.rawP = render(t.p, g.chance(2, 3) ? &g : nullptr);
  for (int s : stages) {
    if (s == 12) { t.rawH = breakJson(g, t.rawH); t.astOk = false; t.what += " header-json"; }
    if (s == 13) { t.rawP = breakJson(g, t.rawP); t.astOk = false; t.what += " payload-json"; }
  }
  std::string h = b64(t.rawH), p = b64(t.rawP), s = b64(t.sig);
  t.text = h + "." + p + "." + s;
  for (int st : stages) if (st >= 14) genDefect(g, t, &h, &p, &s, st);
  bool sect = false;
  for (int st : stages) sect |= st == 17;
  if (sect) {
    t.what += " sections";
    switch (g.below(12)) {
      case 0: t.text = h + "." + p; break;
      case 1: t.text = h; break;
      case 2: t.text = ""; break;
      case 3: t.text = "." + p + "." + s; break;
      case 4: t.text = h + ".." + s; break;
      case 5: t.text = h + "." + p + "."; break;
      case 6: t.text = h + "." + p + "." + s + "."; break;
      case 7: t.text = h + "." + p + "." + s + "." + s; break;
      case 8: t.text = ".."; break;
      case 9: t.text = "." + h + "." + p + "." + s; break;
      case 10: t.text = h + "." + p + "." + s + "." + s + "." + s; break;
      default: t.text = h + ".." + p + "." + s; break;
    }
  } else {
    t.text = h + "." + p + "." + s;
  }
  return t;
}

inline void genDefect(Rng& g, T& t, std::string* h64, std::string* p64, std::string* s64, int stage) {
  auto setIn = [](J& j, const char* n, J v) { j.set(n, std::move(v)); };
  switch (stage) {
    case 0: t.h.del("alg"); t.what += " no-alg"; break;
    case 1: setIn(t.h, "alg", genWrong(g, true, false)); t.what += " alg-type"; break;
    case 2: setIn(t.h, "alg", J::str(g.pick(badAlgs()))); t.what += " alg-unsupported"; break;
    case 3: setIn(t.h, "kid", genWrong(g, true, false)); t.what += " kid-type"; break;
    case 4: setIn(t.p, "iss", genWrong(g, true, false)); t.what += " iss-type"; break;
    case 5: setIn(t.p, "sub", genWrong(g, true, false)); t.what += " sub-type"; break;
    case 6: setIn(t.p, "jti", genWrong(g, true, false)); t.what += " jti-type"; break;
    case 7: case 8: {
      const char* n[] = {"iat", "nbf", "exp"};
      const char* c = n[g.below(3)];
      setIn(t.p, c, genWrong(g, false, true)); t.what += std::string(" ") + c + "-type"; break;
    }
    case 9: case 10: {
      const char* n[] = {"iat", "nbf", "exp"};
      const char* c = n[g.below(3)];
      setIn(t.p, c, J::num(genNumBad(g))); t.what += std::string(" ") + c + "-range"; break;
    }
    case 11: {
      if (g.chance(1, 2)) {
        J v;
        do v = genWrong(g, true, false); while (v.k == J::List);
        setIn(t.p, "aud", v);
      } else {
        std::vector<J> l;
        int n = g.range(0, 3), m = g.range(0, 3);
        while (n--) l.push_back(J::str(genStr(g)));
        l.push_back(genWrong(g, true, false));
        while (m--) l.push_back(J::str(genStr(g)));
        setIn(t.p, "aud", J::list(l));
      }
      t.what += " aud-type";
      break;
    }
    case 14: *h64 = breakB64(g, *h64); t.astOk = false; t.what += " header-b64"; break;
    case 15: *p64 = breakB64(g, *p64); t.astOk = false; t.what += " payload-b64"; break;
    case 16: *s64 = breakB64(g, *s64); t.astOk = false; t.what += " sig-b64"; break;
    case 17: t.astOk = false; break;
  }
}

inline void mutateText(Rng& g, T& t) {
  int n = g.range(1, 3);
  while (n--) {
    std::string& s = t.text;
    switch (g.below(6)) {
      case 0: if (!s.empty()) s[g.below(s.size())] = static_cast<char>(g.u64()); break;
      case 1: if (!s.empty()) s.erase(g.below(s.size()), 1 + g.below(4)); break;
      case 2: s.insert(g.below(s.size() + 1), 1, ".AZaz09-_=+/ \n"[g.below(14)]); break;
      case 3: if (!s.empty()) s.resize(g.below(s.size())); break;
      case 4: if (!s.empty()) { size_t i = g.below(s.size()); s.insert(g.below(s.size()), s.substr(i, 1 + g.below(8))); } break;
      default: if (!s.empty()) s[g.below(s.size())] = b64chars()[g.below(64)]; break;
    }
  }
  t.astOk = false;
  t.what += " text-mutated";
}

inline std::string badB64(Rng& g, std::string s) {
  switch (g.below(4)) {
    case 0: s += "A"; while (s.size() % 4 != 1) s += "A"; return s;
    case 1: s.insert(g.below(s.size() + 1), 1, "+/%.!\""[g.below(6)]); return s;
    case 2: return s + "=A";
    default: return "A";
  }
}

// Breaks an entry; kid and alg keep their types (whether entries whose kid or
// alg is not a string count as well-formed is left open).
inline void breakJwk(Rng& g, J& j, const Key& k) {
  std::vector<std::string> f;
  switch (k.t) {
    case KT::RSA: f = {"n", "e"}; break;
    case KT::EC: f = {"x", "y"}; break;
    case KT::OCT: f = {"k"}; break;
    default: f = {"x", "crv"}; break;
  }
  const std::string& m = f[g.below(f.size())];
  auto val = [&]() -> std::string { const J* v = j.get(m); return v && v->k == J::Str ? v->s : ""; };
  switch (g.below(16)) {
    case 0: j.del("kty"); break;
    case 1: j.set("kty", genWrong(g, true, false)); break;
    case 2: j.set("kty", J::str(g.pick(std::vector<std::string>{"", "rsa", "Rsa", "RSA ", "ec", "OCT", "okp", "DSA", "none", "RSAX", "E", "octet"}))); break;
    case 3: case 4: j.del(m); break;
    case 5: case 6: j.set(m, genWrong(g, true, false)); break;
    case 7: case 8: j.set(m, J::str(m == "crv" ? "P-256" : badB64(g, val()))); break;
    case 9: j.set(m, J::str("")); break;
    case 10: j.set("alg", J::str(g.pick(std::vector<std::string>{"HS256", "ES256", "ES384", "ES512", "EdDSA", "RS256", "PS256", "none", "R", "E", "P", "X", "rs256", "es256", "hs256", "HS", "HS2566", "eddsa", "ES", "ES2566", "SR256", "ES256K"}))); break;
    case 11: if (k.t == KT::EC || k.t == KT::OKP) j.set("crv", g.chance(1, 4) ? genWrong(g, true, false) : J::str(g.pick(std::vector<std::string>{"P-256", "P-384", "P-521", "P-512", "p-256", "P-224", "secp256k1", "", "Ed25519", "ed25519", "X25519", "Ed448", "P-2566", "ES256"})));
      break;
    case 12:
      if (k.t == KT::RSA) {
        if (g.chance(1, 2)) j.set("e", J::str(b64(g.pick(std::vector<std::string>{std::string(1, 0), "\x01", "\x02", "\x04", std::string("\x01\0\0", 3), std::string(4, 0)}))));
        else { std::string n = k.n; int w = static_cast<int>(g.below(4)); if (w == 0) n.back() ^= 1; else if (w == 1) n = std::string(1, 0); else if (w == 2) n = std::string(3000, '\x7f'); else n = "\x01"; j.set("n", J::str(b64(n))); }
      } else if (k.t == KT::EC) {
        std::string x = k.x;
        int w = static_cast<int>(g.below(4));
        if (w == 0) x.back() ^= 1;
        else if (w == 1) x = std::string(x.size(), '\xff');
        else if (w == 2) x = x + x;
        else x = k.y;
        j.set(g.chance(1, 2) ? "x" : "y", J::str(b64(x)));
      } else if (k.t == KT::OKP) {
        std::string x = k.x;
        int w = static_cast<int>(g.below(4));
        if (w == 0) x.resize(31); else if (w == 1) x += "x"; else if (w == 2) x += x; else x.resize(g.below(31));
        j.set("x", J::str(b64(x)));
      }
      break;
    case 13: j.set("kty", J::str(g.pick(std::vector<std::string>{"RSA", "EC", "oct", "OKP"}))); break;
    case 14: if (k.t == KT::EC) { const Key* o = g.pick(pool().ec); j.set("x", J::str(b64(o->x))); } else j = J::obj(); break;
    default: j.del(m); j.set(g.chance(1, 2) ? m + "x" : "kty." + m, J::str("AQAB")); break;
  }
}

// Writes the numbers of an entry with more or fewer leading zero octets.
inline void respell(Rng& g, J& j) {
  const J* t = j.get("kty");
  if (!t) return;
  for (const char* m : {"n", "e", "x", "y"}) {
    const J* v = j.get(m);
    std::string d;
    if ((*m == 'n' || *m == 'e' ? t->s != "RSA" : t->s != "EC") || !v || !g.chance(1, 2) || unb64(v->s, &d) != B64::GOOD) continue;
    size_t z = 0;
    while (z + 1 < d.size() && !d[z]) z++;
    if (z && g.chance(2, 3)) d.erase(0, g.range(1, static_cast<int>(z)));
    else d.insert(0, g.pick(std::vector<size_t>{1, 1, 2, 3, 4, 7, 8, 64, 300}), 0);
    j.set(m, J::str(b64(d)));
  }
}

inline J genEntry(Rng& g, int breakage) {
  const Key* k = g.pick(pool().good);
  if (k->t == KT::EC && g.chance(1, 2)) k = g.pick(pool().ec);
  std::shared_ptr<Key> own;
  if (k->t == KT::OCT && g.chance(2, 3)) { own = freshOct(g); k = own.get(); }
  bool hasAlg = g.chance(1, 2);
  auto algs = jwkAlgs(*k);
  std::string alg = g.chance(1, 12) ? "" : g.pick(algs);
  if (k->t == KT::RSA && g.chance(1, 8)) alg = g.pick(std::vector<std::string>{"RS", "PS", "RS1", "PS2566"});
  bool crv = k->t != KT::EC || g.chance(2, 3);
  J j = jwk(*k, genStr(g, 10), alg, g.chance(2, 3), hasAlg, crv);
  if (g.chance(1, 2)) addKeyMembers(g, &j);
  if (g.chance(1, 6)) j.set(g.pick(std::vector<std::string>{"x.y", "n.a", "kid.x", "d", "extra", "", "Kty", "k ", "keys"}), genJson(g, 2));
  static const std::vector<std::string> known{"kty", "kid", "alg", "crv", "n", "e", "x", "y", "k"};
  if (g.chance(1, 4)) j.set(genName(g, known), genExtra(g, 2));
  if (g.chance(1, 10)) {  // members of other key types, to be ignored
    const Key* o = g.pick(pool().good);
    J oj = jwk(*o, "", "", false, false, false);
    for (auto& kv : oj.o) if (!j.has(kv.first) && kv.first != "crv") j.set(kv.first, kv.second);
  }
  if (g.chance(1, 6)) respell(g, j);
  while (breakage--) breakJwk(g, j, *k);
  g.shuffle(j.o);
  return j;
}

// A PEM text, good or bad.
inline std::string genPem(Rng& g, std::string* what) {
  std::vector<const Key*> ks = pool().rsa;
  ks.insert(ks.end(), pool().ec.begin(), pool().ec.end());
  ks.insert(ks.end(), pool().okp.begin(), pool().okp.end());
  const Key* k = g.chance(1, 3) ? g.pick(pool().okp) : g.pick(ks);
  std::string p = k->pem;
  *what = k->name;
  if (g.chance(1, 2)) return p;
  switch (g.below(15)) {
    case 0: *what += " truncated"; return p.substr(0, g.below(p.size()));
    case 1: *what += " char changed"; p[g.below(p.size())] = static_cast<char>(g.u64()); return p;
    case 2: { *what += " body changed"; size_t i = 27 + g.below(p.size() - 54); p[i] = "ABCDxyz09+/="[g.below(12)]; return p; }
    case 3: *what += " with text around"; return (g.chance(1, 2) ? "some text\n" : "\n\n") + p + (g.chance(1, 2) ? "trailer" : "\n \n");
    case 4: *what = "empty"; return "";
    case 5: *what = "garbage"; return g.bytes(g.below(300));
    case 6: *what += " private key"; return readFile(pool().files[k->name + ".pem"].empty() ? pool().files["rsa2048_1.pem"] : pool().files[k->name + ".pem"]);
    case 7: *what = "certificate"; return g.pick(pool().crt)->crt;
    case 8: *what = "unsupported type"; return g.pick(pool().otherPems);
    case 9: *what += " two keys"; return p + g.pick(ks)->pem;
    case 10: { *what += " CRLF"; std::string r; for (char c : p) { if (c == '\n') r += '\r'; r += c; } return r; }
    case 11: { *what += " wrong label"; size_t i = p.find("PUBLIC"); p.replace(i, 6, "PUBLIX"); return p; }
    case 12: { *what += " no newlines"; std::string r; for (char c : p) if (c != '\n') r += c; return r; }
    case 13: {  // DER damaged, re-encoded
      *what += " DER changed";
      std::string d = derPub(k->pkey.get());
      int w = static_cast<int>(g.below(4));
      if (w == 0) d[g.below(d.size())] ^= static_cast<char>(1 << g.below(8));
      else if (w == 1) d += g.bytes(1 + g.below(3));
      else if (w == 2) d.resize(g.below(d.size()));
      else d.erase(g.below(d.size()), 1);
      size_t len = 0;
      std::string b(d.size() * 2 + 8, 0);
      len = EVP_EncodeBlock(reinterpret_cast<uint8_t*>(&b[0]), u8(d), d.size());
      b.resize(len);
      std::string r = "-----BEGIN PUBLIC KEY-----\n";
      for (size_t i = 0; i < b.size(); i += 64) r += b.substr(i, 64) + "\n";
      return r + "-----END PUBLIC KEY-----\n";
    }
    default: *what = "JWKS"; return "{\"keys\":[" + render(jwk(*k, "a", "", true, false)) + "]}";
  }
}

// A JWKS document, good or bad.
inline std::string genJwksDoc(Rng& g) {
  J doc = J::obj();
  std::vector<J> entries;
  int mode = static_cast<int>(g.below(20));
  int n = g.chance(1, 12) ? 0 : g.range(1, 6);
  if (g.chance(1, 200)) n = g.chance(1, 3) ? 60 : g.chance(1, 2) ? g.range(100, 400) : static_cast<int>(dictInt(g, 1100));
  int badness = g.range(0, 4);  // how many of 4 entries are broken
  for (int i = 0; i < n; i++) {
    if (g.chance(1, 14)) {
      J v;
      do v = genJson(g, 2); while (v.k == J::Obj);
      entries.push_back(v);
    } else entries.push_back(genEntry(g, static_cast<int>(g.below(4)) < badness ? g.range(1, 2) : 0));
  }
  doc.set("keys", J::list(entries));
  if (g.chance(1, 4)) doc.set(g.pick(std::vector<std::string>{"Keys", "key", "keys.x", "kid1", "a"}), g.chance(1, 2) ? genJson(g, 2) : J::str(pool().crt[0]->crt));
  if (mode == 0) { doc.del("keys"); if (g.chance(1, 2)) doc.set("other", genJson(g, 2)); }
  if (mode == 1) { J v; do v = genJson(g, 2); while (v.k == J::List); doc.set("keys", v); }
  g.shuffle(doc.o);
  std::string text = render(doc, g.chance(1, 2) ? &g : nullptr);
  if (mode == 2) {
    switch (g.below(8)) {
      case 0: text = text.substr(0, g.below(text.size())); break;
      case 1: text += "}"; break;
      case 2: text = ""; break;
      case 3: text = "[" + text + "]"; break;
      case 4: text = text.substr(0, text.size() - 1) + ",\"keys\":[]}"; break;
      case 5: text[g.below(text.size())] ^= static_cast<char>(1 << g.below(8)); break;
      case 6: text.erase(g.below(text.size()), 1); break;
      default: text += std::string(1, 0); break;
    }
  }
  return text;
}

// An x509 map, good or bad.
inline std::string genX509Doc(Rng& g) {
  J doc = J::obj();
  int n = g.range(1, 5);
  bool allGood = g.chance(1, 2);
  if (g.chance(1, 400)) n = static_cast<int>(1 + (g.chance(1, 2) ? dictInt(g, 1100) : g.below(300)));
  std::string what;
  for (int i = 0; i < n; i++) {
    const Key* k;
    do k = g.pick(pool().crt); while (k->crt.empty());
    std::string c = k->crt, kid = g.chance(1, 2) ? "kid" + std::to_string(i) : genStr(g, 12);
    if (kid.empty() && allGood) kid = "e";
    if (kid == "keys") kid = "key";  // would make it a JWKS document
    if (!allGood && g.chance(1, 2)) {
      what += " bad";
      switch (g.below(14)) {
        case 0: { auto it = pool().files.find(g.chance(1, 2) ? "ec_prime256v1_1.crt" : "ed25519_1.crt"); c = readFile(it->second); break; }
        case 1: c = std::string(kCertPre) + "AAAA" + kCertSuf; break;
        case 2: c = std::string(kCertPre) + kCertSuf; break;
        case 3: { size_t p = 28 + g.below(c.size() - 56); c[p] = "ABCDxyz09+/="[g.below(12)]; break; }
        case 4: c = c.substr(0, c.size() - 1); break;
        case 5: c = " " + c; break;
        case 6: c = k->pem; break;
        case 7: c = ""; break;
        case 8: { size_t a = strlen(kCertPre), m = c.size() - a - strlen(kCertSuf); c = std::string(kCertPre) + c.substr(a, g.below(m)) + kCertSuf; break; }
        case 9: kid = ""; break;
        case 10: doc.set(kid.empty() ? "w" : kid, genWrong(g, true, false)); continue;
        case 11: { std::string s = kCertPre; s.pop_back(); c = s + kCertSuf; break; }
        case 12: c = std::string(kCertPre) + "!!!" + kCertSuf; break;
        default: c = std::string(kCertPre) + std::string(40000, 'A') + kCertSuf; break;
      }
    } else if (g.chance(1, 5)) c += g.chance(1, 2) ? "" : c;
    doc.set(kid, J::str(c));
  }
  g.shuffle(doc.o);
  std::string text = render(doc, g.chance(1, 2) ? &g : nullptr);
  return text;
}

}  // namespace vh
