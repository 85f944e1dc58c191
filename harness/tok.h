// Independent model of tokens: base64url, JSON values, and an oracle that says
// for any text whether it is a well-formed token, with which contents, or which
// defects it has.
#pragma once
#include <cmath>

#include "common.h"
#include "google/protobuf/struct.pb.h"
#include "google/protobuf/util/json_util.h"
#include "google/protobuf/util/message_differencer.h"
#include "jwt_verify_lib/jwt.h"
#include "jwt_verify_lib/status.h"

namespace vh {
using google::jwt_verify::Jwt;
using google::jwt_verify::Status;
typedef google::protobuf::Struct PbStruct;
typedef google::protobuf::Value PbValue;

inline const char* b64chars() { return "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"; }

inline std::string b64(const std::string& s) {
  std::string r;
  size_t i = 0;
  const unsigned char* p = reinterpret_cast<const unsigned char*>(s.data());
  for (; i + 2 < s.size(); i += 3) {
    uint32_t v = p[i] << 16 | p[i + 1] << 8 | p[i + 2];
    r += b64chars()[v >> 18]; r += b64chars()[(v >> 12) & 63];
    r += b64chars()[(v >> 6) & 63]; r += b64chars()[v & 63];
  }
  if (i + 1 == s.size()) {
    r += b64chars()[p[i] >> 2]; r += b64chars()[(p[i] & 3) << 4];
  } else if (i + 2 == s.size()) {
    uint32_t v = p[i] << 8 | p[i + 1];
    r += b64chars()[v >> 10]; r += b64chars()[(v >> 4) & 63]; r += b64chars()[(v & 15) << 2];
  }
  return r;
}

inline int b64val(unsigned char c) {
  if (c >= 'A' && c <= 'Z') return c - 'A';
  if (c >= 'a' && c <= 'z') return c - 'a' + 26;
  if (c >= '0' && c <= '9') return c - '0' + 52;
  if (c == '-') return 62;
  if (c == '_') return 63;
  return -1;
}

// GOOD: unpadded base64url with zero trailing bits. LENIENT: differs from that
// only by whitespace, '=' at the end or non-zero trailing bits; whether such
// text is accepted is left open. BAD: must be rejected.
enum class B64 { GOOD, LENIENT, BAD };
inline B64 unb64(const std::string& s, std::string* out) {
  out->clear();
  std::string t;
  bool lenient = false, pad = false;
  for (unsigned char c : s) {
    if (c == ' ' || (c >= 9 && c <= 13)) { lenient = true; continue; }
    // abseil takes '.' for padding too (a token's sections never hold one).
    if (c == '=' || c == '.') { lenient = pad = true; continue; }
    if (b64val(c) < 0 || pad) return B64::BAD;
    t += static_cast<char>(c);
  }
  if (t.size() % 4 == 1) return B64::BAD;
  uint32_t acc = 0;
  int bits = 0;
  for (unsigned char c : t) {
    acc = (acc << 6) | b64val(c);
    bits += 6;
    if (bits >= 8) { bits -= 8; *out += static_cast<char>(acc >> bits); acc &= (1u << bits) - 1; }
  }
  if (acc != 0) lenient = true;
  return lenient ? B64::LENIENT : B64::GOOD;
}

struct J {
  enum Kind { Null, Bool, Num, Str, List, Obj, Raw } k = Null;
  bool b = false;
  std::string s;  // string value, number literal or raw text
  std::vector<J> l;
  std::vector<std::pair<std::string, J>> o;
  static J null() { return J(); }
  static J boolean(bool v) { J j; j.k = Bool; j.b = v; return j; }
  static J num(const std::string& lit) { J j; j.k = Num; j.s = lit; return j; }
  static J num(uint64_t v) { return num(std::to_string(v)); }
  static J str(const std::string& v) { J j; j.k = Str; j.s = v; return j; }
  static J list(std::vector<J> v) { J j; j.k = List; j.l = std::move(v); return j; }
  static J obj() { J j; j.k = Obj; return j; }
  static J raw(const std::string& v) { J j; j.k = Raw; j.s = v; return j; }
  J& set(const std::string& n, J v) {
    for (auto& kv : o) if (kv.first == n) { kv.second = std::move(v); return *this; }
    o.emplace_back(n, std::move(v));
    return *this;
  }
  J& del(const std::string& n) {
    for (size_t i = 0; i < o.size(); i++) if (o[i].first == n) { o.erase(o.begin() + i); break; }
    return *this;
  }
  bool has(const std::string& n) const { for (auto& kv : o) if (kv.first == n) return true; return false; }
  const J* get(const std::string& n) const { for (auto& kv : o) if (kv.first == n) return &kv.second; return nullptr; }
};

inline void renderStr(const std::string& s, Rng* g, std::string& r) {
  char b[16];
  r += '"';
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20) {
      if (c == '\n' && (!g || g->chance(1, 2))) r += "\\n";
      else { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    } else if (g && c < 0x7f && g->chance(1, 24)) { snprintf(b, sizeof b, g->chance(1, 2) ? "\\u%04x" : "\\u%04X", c); r += b; }
    else if (g && c == '/' && g->chance(1, 4)) r += "\\/";
    else r += c;
  }
  r += '"';
}

inline void render(const J& j, Rng* g, std::string& r) {
  auto ws = [&] { if (g) while (g->chance(1, 12)) r += " \t\n\r"[g->below(4)]; };
  ws();
  switch (j.k) {
    case J::Null: r += "null"; break;
    case J::Bool: r += j.b ? "true" : "false"; break;
    case J::Num: case J::Raw: r += j.s; break;
    case J::Str: renderStr(j.s, g, r); break;
    case J::List:
      r += '[';
      for (size_t i = 0; i < j.l.size(); i++) { if (i) r += ','; render(j.l[i], g, r); }
      r += ']';
      break;
    case J::Obj:
      r += '{';
      for (size_t i = 0; i < j.o.size(); i++) {
        if (i) r += ',';
        ws(); renderStr(j.o[i].first, g, r); ws();
        r += ':';
        render(j.o[i].second, g, r);
      }
      r += '}';
      break;
  }
  ws();
}
inline std::string render(const J& j, Rng* g = nullptr) { std::string r; render(j, g, r); return r; }

// false if the value holds raw text
inline bool toPb(const J& j, PbValue* v);
inline bool toPb(const J& j, PbStruct* s) {
  bool ok = true;
  for (auto& kv : j.o) ok &= toPb(kv.second, &(*s->mutable_fields())[kv.first]);
  return ok;
}
inline bool toPb(const J& j, PbValue* v) {
  bool ok = true;
  switch (j.k) {
    case J::Null: v->set_null_value(google::protobuf::NULL_VALUE); break;
    case J::Bool: v->set_bool_value(j.b); break;
    case J::Num: v->set_number_value(strtod(j.s.c_str(), nullptr)); break;
    case J::Str: v->set_string_value(j.s); break;
    case J::Raw: return false;
    case J::List:
      v->mutable_list_value();
      for (auto& e : j.l) ok &= toPb(e, v->mutable_list_value()->add_values());
      break;
    case J::Obj: ok = toPb(j, v->mutable_struct_value()); break;
  }
  return ok;
}

inline bool pbEqual(const PbStruct& a, const PbStruct& b) {
  return google::protobuf::util::MessageDifferencer::Equals(a, b);
}

inline bool parseJson(const std::string& s, PbStruct* pb) {
  google::protobuf::util::JsonParseOptions o;
  return google::protobuf::util::JsonStringToMessage(s, pb, o).ok();
}

inline const std::vector<std::string>& allAlgs() {
  static const auto* v = new std::vector<std::string>{"ES256", "ES384", "ES512", "HS256", "HS384", "HS512", "RS256",
                                                      "RS384", "RS512", "PS256", "PS384", "PS512", "EdDSA"};
  return *v;
}
inline bool algSupported(const std::string& a) {
  for (auto& x : allAlgs()) if (x == a) return true;
  return false;
}

inline std::string statusName(Status s) {
  return std::to_string(static_cast<int>(s)) + " (" + google::jwt_verify::getStatusString(s) + ")";
}

struct Parsed {
  std::set<Status> defects;  // every defect found
  bool lenient = false;      // some section is only leniently base64url
  std::string h64, p64, s64, h, p, sig;
  PbStruct hpb, ppb;
  std::string alg, kid, iss, sub, jti;
  std::vector<std::string> aud;
  uint64_t iat = 0, nbf = 0, exp = 0;
  size_t sections = 0;
  std::set<Status> lenientDefects;
  bool mustAccept() const { return defects.empty() && !lenient; }
  bool mustReject() const { return !defects.empty(); }
};

inline const PbValue* member(const PbStruct& s, const char* n) {
  auto it = s.fields().find(n);
  return it == s.fields().end() ? nullptr : &it->second;
}

inline Parsed oracleParse(const std::string& text) {
  Parsed r;
  std::vector<std::string> sec(1);
  for (char c : text) {
    if (c == '.') sec.emplace_back();
    else sec.back() += c;
  }
  r.sections = sec.size();
  if (sec.size() != 3) r.defects.insert(Status::JwtBadFormat);
  while (sec.size() < 3) sec.emplace_back();
  for (int i = 0; i < 3; i++) if (sec[i].empty()) r.defects.insert(Status::JwtBadFormat);
  r.h64 = sec[0]; r.p64 = sec[1]; r.s64 = sec[2];
  auto dec = [&](const std::string& in, std::string* out, Status bad) {
    B64 k = unb64(in, out);
    if (k == B64::BAD) { r.defects.insert(bad); return false; }
    if (k == B64::LENIENT) { r.lenient = true; r.lenientDefects.insert(bad); }
    return true;
  };
  auto str = [&](const PbStruct& s, const char* n, std::string* out, Status bad) {
    const PbValue* v = member(s, n);
    if (!v) return;
    if (v->kind_case() != PbValue::kStringValue) r.defects.insert(bad);
    else *out = v->string_value();
  };
  auto num = [&](const char* n, uint64_t* out, Status bad, Status range) {
    const PbValue* v = member(r.ppb, n);
    if (!v) return;
    if (v->kind_case() != PbValue::kNumberValue) { r.defects.insert(bad); return; }
    double d = v->number_value();
    if (d >= 0 && d < 18446744073709551616.0) *out = static_cast<uint64_t>(d);
    else r.defects.insert(range);
  };
  if (dec(r.h64, &r.h, Status::JwtHeaderParseErrorBadBase64)) {
    if (!parseJson(r.h, &r.hpb)) r.defects.insert(Status::JwtHeaderParseErrorBadJson);
    else {
      const PbValue* a = member(r.hpb, "alg");
      if (!a || a->kind_case() != PbValue::kStringValue) r.defects.insert(Status::JwtHeaderBadAlg);
      else {
        r.alg = a->string_value();
        if (!algSupported(r.alg)) r.defects.insert(Status::JwtHeaderNotImplementedAlg);
      }
      str(r.hpb, "kid", &r.kid, Status::JwtHeaderBadKid);
    }
  }
  if (dec(r.p64, &r.p, Status::JwtPayloadParseErrorBadBase64)) {
    if (!parseJson(r.p, &r.ppb)) r.defects.insert(Status::JwtPayloadParseErrorBadJson);
    else {
      str(r.ppb, "iss", &r.iss, Status::JwtPayloadParseErrorIssNotString);
      str(r.ppb, "sub", &r.sub, Status::JwtPayloadParseErrorSubNotString);
      str(r.ppb, "jti", &r.jti, Status::JwtPayloadParseErrorJtiNotString);
      num("iat", &r.iat, Status::JwtPayloadParseErrorIatNotInteger, Status::JwtPayloadParseErrorIatOutOfRange);
      num("nbf", &r.nbf, Status::JwtPayloadParseErrorNbfNotInteger, Status::JwtPayloadParseErrorNbfOutOfRange);
      num("exp", &r.exp, Status::JwtPayloadParseErrorExpNotInteger, Status::JwtPayloadParseErrorExpOutOfRange);
      if (const PbValue* v = member(r.ppb, "aud")) {
        bool bad = false;
        if (v->kind_case() == PbValue::kStringValue) r.aud.push_back(v->string_value());
        else if (v->kind_case() == PbValue::kListValue) {
          for (auto& e : v->list_value().values()) {
            if (e.kind_case() != PbValue::kStringValue) bad = true;
            else r.aud.push_back(e.string_value());
          }
        } else bad = true;
        if (bad) r.defects.insert(Status::JwtPayloadParseErrorAudNotString);
      }
    }
  }
  dec(r.s64, &r.sig, Status::JwtSignatureParseErrorBadBase64);
  return r;
}

// First difference between the fields of a parsed token and what they should
// be, or "".
inline std::string diffFields(const Jwt& j, const Parsed& e, const std::string& text) {
  if (j.jwt_ != text) return "jwt_";
  if (j.header_str_ != e.h) return "header_str_";
  if (j.header_str_base64url_ != e.h64) return "header_str_base64url_";
  if (j.payload_str_ != e.p) return "payload_str_";
  if (j.payload_str_base64url_ != e.p64) return "payload_str_base64url_";
  if (j.signature_ != e.sig) return "signature_";
  if (j.alg_ != e.alg) return "alg_";
  if (j.kid_ != e.kid) return "kid_";
  if (j.iss_ != e.iss) return "iss_";
  if (j.audiences_ != e.aud) return "audiences_";
  if (j.sub_ != e.sub) return "sub_";
  if (j.iat_ != e.iat) return "iat_";
  if (j.nbf_ != e.nbf) return "nbf_";
  if (j.exp_ != e.exp) return "exp_";
  if (j.jti_ != e.jti) return "jti_";
  if (!pbEqual(j.header_pb_, e.hpb)) return "header_pb_";
  if (!pbEqual(j.payload_pb_, e.ppb)) return "payload_pb_";
  return "";
}

// First field in which two token objects differ, or "".
inline std::string diffJwt(const Jwt& a, const Jwt& b) {
#define VH_F(f) if (a.f != b.f) return #f;
  VH_F(jwt_) VH_F(header_str_) VH_F(header_str_base64url_) VH_F(payload_str_) VH_F(payload_str_base64url_)
  VH_F(signature_) VH_F(alg_) VH_F(kid_) VH_F(iss_) VH_F(audiences_) VH_F(sub_) VH_F(iat_) VH_F(nbf_) VH_F(exp_)
  VH_F(jti_)
#undef VH_F
  if (!pbEqual(a.header_pb_, b.header_pb_)) return "header_pb_";
  if (!pbEqual(a.payload_pb_, b.payload_pb_)) return "payload_pb_";
  return "";
}

// ---- generators -----------------------------------------------------------

inline std::string utf8(uint32_t c) {
  std::string r;
  if (c < 0x80) r += static_cast<char>(c);
  else if (c < 0x800) { r += static_cast<char>(0xc0 | c >> 6); r += static_cast<char>(0x80 | (c & 63)); }
  else if (c < 0x10000) { r += static_cast<char>(0xe0 | c >> 12); r += static_cast<char>(0x80 | ((c >> 6) & 63)); r += static_cast<char>(0x80 | (c & 63)); }
  else { r += static_cast<char>(0xf0 | c >> 18); r += static_cast<char>(0x80 | ((c >> 12) & 63)); r += static_cast<char>(0x80 | ((c >> 6) & 63)); r += static_cast<char>(0x80 | (c & 63)); }
  return r;
}

inline std::string genStr(Rng& g, int maxlen = 24) {
  static const char* fixed[] = {"", "a", "https://example.com/", "http://example.com", "sub@x.org", "k1", "k2", "RS256", "0", "null", "a.b", "exp", "\"q\"", "back\\slash", "https://", "/"};
  if (g.chance(1, 3)) return fixed[g.below(sizeof fixed / sizeof *fixed)];
  if (g.chance(1, 10)) return dictStr(g);
  std::string r;
  int n = static_cast<int>(g.below(maxlen + 1));
  if (g.chance(1, 60)) n = 200 + static_cast<int>(g.below(3000));
  if (g.chance(1, 40)) n = static_cast<int>(dictInt(g, 5000));
  for (int i = 0; i < n; i++) {
    int w = static_cast<int>(g.below(20));
    if (w < 15) r += static_cast<char>(0x20 + g.below(95));
    else if (w == 15) r += static_cast<char>(g.below(32));  // control, also NUL
    else if (w == 16) r += utf8(0x80 + g.below(0x780));
    else if (w == 17) r += utf8(0x800 + g.below(0xd000 - 0x800));
    else if (w == 18) r += utf8(0x10000 + g.below(0x100000));
    else r += "/.=:-_~"[g.below(7)];
  }
  return r;
}

// Number literals in [0, 2^64), and others.
inline std::string genNumGood(Rng& g) {
  static const char* fixed[] = {"0", "1", "59", "60", "61", "1501281058", "2147483647", "2147483648", "4294967295", "4294967296",
                                "9007199254740991", "9007199254740992", "9007199254740993", "9223372036854775807",
                                "9223372036854775808", "9223372036854774784", "9223372036854777856",
                                "18446744073709549568", "18446744073709549567", "1.5", "0.5", "0.999999", "1e3", "1E+3", "1.25e2",
                                "1e19", "1.8446744073709549e19", "-0", "-0.0", "0e5", "1e-400", "123456789012.75", "10000000000.0", "9.2233720368547758e18",
                                "4503599627370496.5", "4294967295.9999"};
  if (g.chance(1, 2)) return fixed[g.below(sizeof fixed / sizeof *fixed)];
  uint64_t v = g.u64() >> g.below(64);
  if (v >= 18446744073709549568ULL) v = 18446744073709549568ULL;
  if (g.chance(1, 8)) v = dictInt(g, 18446744073709549568ULL);
  std::string r = std::to_string(v);
  if (g.chance(1, 5) && v < (1ULL << 62)) r += "." + std::to_string(g.below(1000));
  return r;
}
inline std::string genNumBad(Rng& g) {
  static const char* fixed[] = {"-1", "-0.5", "-1e-300", "18446744073709551616", "18446744073709551615", "18446744073709551617", "1e20", "1e308",
                                "-1e308", "-18446744073709551616", "-9223372036854775808", "-9223372036854775809", "36893488147419103232", "1.8446744073709552e19", "-1501281058",
                                "20000000000000000000", "-5e-324"};
  if (g.chance(1, 4)) return "-" + std::to_string(1 + (g.u64() >> g.range(1, 63)));
  return fixed[g.below(sizeof fixed / sizeof *fixed)];
}

inline J genJson(Rng& g, int depth) {
  switch (g.below(depth > 0 ? 8 : 5)) {
    case 0: return J::null();
    case 1: return J::boolean(g.chance(1, 2));
    case 2: return J::num(g.chance(3, 4) ? genNumGood(g) : genNumBad(g));
    case 3: case 4: return J::str(genStr(g));
    case 5: { std::vector<J> l; int n = static_cast<int>(g.below(4)); while (n--) l.push_back(genJson(g, depth - 1)); return J::list(std::move(l)); }
    default: { J o = J::obj(); int n = static_cast<int>(g.below(4)); while (n--) o.set(genStr(g, 6), genJson(g, depth - 1)); return o; }
  }
}
inline J genWrong(Rng& g, bool stringOk, bool numOk) {
  for (;;) {
    J j = genJson(g, 2);
    if (j.k == J::Str && stringOk) continue;
    if (j.k == J::Num && numOk) continue;
    return j;
  }
}

// A member name that is none of those in `known`: registered names, literals
// of the code, near misses.
inline std::string genName(Rng& g, const std::vector<std::string>& known) {
  static const char* names[] = {"x5t", "x5t#S256", "jku", "jwk", "x5u", "x5c", "cty", "crit", "b64", "zip", "enc", "nonce", "epk", "apu", "apv", "p2s", "p2c", "iv", "tag", "ppt", "url", "svt", "typ", "use", "key_ops", "kty", "crv", "x", "y",
                                "azp", "client_id", "tid", "oid", "expires", "expires_in", "expiry", "audience", "audiences", "issuer", "subject", "auth_time", "acr", "amr", "at_hash", "c_hash", "cnf", "act", "may_act", "roles", "groups", "scp", "ver", "upn", "aio", "uti",
                                "iss.x", "exp.y", "a.b", "Exp", "EXP", "aud ", "", "scope", "nested", "email", "ISS", "x.kid", "Alg", "ALG", "Kid", "KID", "key_id", "keyid", "algorithm", "signature", "sig", "alg", "kid", "aud", "iss", "sub", "iat", "nbf", "exp", "jti"};
  for (;;) {
    std::string n = g.chance(1, 5) ? dictStr(g) : g.chance(1, 10) ? g.pick(known) + g.pick(std::vector<std::string>{" ", ".", "s", "_", std::string(1, 0)}) : names[g.below(sizeof names / sizeof *names)];
    bool k = false;
    for (auto& x : known) k |= x == n;
    if (!k) return n;
  }
}
// A string that is close to s, but not equal to it.
inline std::string nearMiss(Rng& g, const std::string& s) {
  static const std::string sep = std::string(" :/.#-_\n\t=*,;@?&|+~'\"\\", 22) + std::string(1, 0);
  auto seps = [&] { return std::string(1, sep[g.below(sep.size())]); };
  for (int i = 0; i < 20; i++) {
    std::string t = s;
    switch (g.below(14)) {
      case 0: for (auto& c : t) c = static_cast<char>(tolower(c)); break;
      case 1: for (auto& c : t) c = static_cast<char>(toupper(c)); break;
      case 2: if (!t.empty()) { char& c = t[g.below(t.size())]; if (isalpha(static_cast<unsigned char>(c))) c ^= 32; } break;
      case 3: t += seps(); break;
      case 4: t = seps() + t; break;
      case 5: t += seps() + dictStr(g); break;
      case 6: t = dictStr(g) + seps() + t; break;
      case 7: if (!t.empty()) t.pop_back(); break;
      case 8: if (!t.empty()) t.erase(0, 1); break;
      case 9: t += t; break;
      case 10: t += seps() + t; break;
      case 11: t += static_cast<char>("0a1AZz9"[g.below(7)]); break;
      case 12: if (!t.empty()) t.erase(g.below(t.size()), 1); break;
      default: if (!t.empty()) t.insert(g.below(t.size() + 1), seps()); break;
    }
    if (t != s && validUtf8(t)) return t;
  }
  return s + "'";
}
// A member of a JSON web key that has a registered meaning, none of which
// changes what this library takes from the key.
inline void addKeyMembers(Rng& g, J* j) {
  for (int n = 1 + static_cast<int>(g.below(4)); n--;) {
    switch (g.below(12)) {
      case 0: case 1: j->set("use", J::str(g.pick(std::vector<std::string>{"sig", "enc", "sig", "SIG", "", "tls", "x"}))); break;
      case 2: case 3: {
        std::vector<J> l;
        for (int m = static_cast<int>(g.below(4)); m--;) l.push_back(J::str(g.pick(std::vector<std::string>{"sign", "verify", "encrypt", "decrypt", "wrapKey", "unwrapKey", "deriveKey", "deriveBits"})));
        j->set("key_ops", J::list(std::move(l)));
        break;
      }
      case 4: { std::vector<J> l; for (int m = static_cast<int>(g.below(3)); m--;) l.push_back(J::str(g.pick(std::vector<std::string>{"", "MIIBIjANBgkqhkiG", "AAAA", "not base64!"}))); j->set("x5c", J::list(std::move(l))); break; }
      case 5: j->set(g.chance(1, 2) ? "x5t" : "x5t#S256", J::str(b64(g.bytes(g.chance(1, 2) ? 20 : 32)))); break;
      case 6: j->set("x5u", J::str("https://example.com/cert")); break;
      case 7: j->set("ext", J::raw(g.chance(1, 2) ? "true" : "false")); break;
      case 8: j->set(g.pick(std::vector<std::string>{"d", "p", "q", "dp", "dq", "qi"}), J::str(b64(g.bytes(1 + g.below(64))))); break;
      case 9: j->set(g.pick(std::vector<std::string>{"exp", "nbf", "iat"}), J::num(g.pick(std::vector<std::string>{"0", "1", "1700000000", "4102444800", "-1"}))); break;
      case 10: j->set(g.pick(std::vector<std::string>{"revoked", "status", "active", "enabled", "priv", "reason"}), J::raw(g.pick(std::vector<std::string>{"true", "false", "null", "\"revoked\"", "\"inactive\"", "{\"reason\":\"compromised\"}", "1"}))); break;
      default: j->set(g.pick(std::vector<std::string>{"issuer", "iss", "aud", "name", "version", "key_id", "oth"}), J::str("x"));
    }
  }
}
// A value as such members have it.
inline J genExtra(Rng& g, int depth) {
  switch (g.below(6)) {
    case 0: case 1: return J::str(genStr(g));
    case 2: return J::num(genNumGood(g));
    case 3: { std::vector<J> l; int n = static_cast<int>(g.below(3)); while (n--) l.push_back(J::str(genStr(g))); return J::list(std::move(l)); }
    default: return genJson(g, depth);
  }
}

// A payload all of whose claims have the right type and range.
inline J genPayload(Rng& g) {
  J p = J::obj();
  if (g.chance(2, 3)) p.set("iss", J::str(genStr(g)));
  if (g.chance(2, 3)) p.set("sub", J::str(genStr(g)));
  if (g.chance(1, 3)) p.set("jti", J::str(genStr(g)));
  if (g.chance(1, 2)) p.set("iat", J::num(genNumGood(g)));
  if (g.chance(1, 2)) p.set("nbf", J::num(genNumGood(g)));
  if (g.chance(1, 2)) p.set("exp", J::num(genNumGood(g)));
  if (g.chance(2, 3)) {
    if (g.chance(1, 2)) p.set("aud", J::str(genStr(g)));
    else {
      std::vector<J> l;
      int n = static_cast<int>(g.below(5));
      if (g.chance(1, 60)) n = static_cast<int>(dictInt(g, 1200));
      while (n-- > 0) l.push_back(J::str(genStr(g)));
      p.set("aud", J::list(std::move(l)));
    }
  }
  static const std::vector<std::string> known{"iss", "sub", "jti", "iat", "nbf", "exp", "aud"};
  for (int n = static_cast<int>(g.chance(1, 400) ? dictInt(g, 1200) : g.below(5)); n-- > 0;) p.set(genName(g, known), genExtra(g, 3));
  g.shuffle(p.o);
  return p;
}

inline J genHeader(Rng& g, const std::string& alg) {
  J h = J::obj();
  h.set("alg", J::str(alg));
  if (g.chance(1, 2)) h.set("typ", J::str("JWT"));
  static const std::vector<std::string> known{"alg", "kid"};
  for (int n = static_cast<int>(g.chance(1, 400) ? dictInt(g, 1200) : g.below(4)) - 1; n-- > 0;) h.set(genName(g, known), genExtra(g, 2));
  g.shuffle(h.o);
  return h;
}
}  // namespace vh
