// C07 time limits, C08 audience matching, C16 typed claim lookup, C17 status
// descriptions.
#include <cmath>
#include <limits>

#include "jwt_verify_lib/check_audience.h"
#include "jwt_verify_lib/struct_utils.h"
#include "jwt_verify_lib/verify.h"
#include "sets.h"

using namespace vh;
using google::jwt_verify::CheckAudience;
using google::jwt_verify::StructUtils;

namespace {
// ---- C07 ------------------------------------------------------------------
typedef unsigned __int128 u128;
const std::vector<uint64_t>& edges() {
  static const auto* v = [] {
    auto* w = new std::vector<uint64_t>;
    const uint64_t M = UINT64_MAX;
    for (uint64_t c : {0ULL, 1ULL, 60ULL, 1000ULL, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 1501281058ULL, 0x7fffffffffffffffULL, 0x8000000000000000ULL})
      for (int d = -2; d <= 2; d++) {
        uint64_t x = c + d;
        if ((d < 0 && c < static_cast<uint64_t>(-d))) continue;
        w->push_back(x);
      }
    for (uint64_t k : {0ULL, 1ULL, 2ULL, 58ULL, 59ULL, 60ULL, 61ULL, 62ULL, 119ULL, 120ULL, 1000ULL}) w->push_back(M - k);
    std::sort(w->begin(), w->end());
    w->erase(std::unique(w->begin(), w->end()), w->end());
    return w;
  }();
  return *v;
}

void timeOne(Run& r, uint64_t now, uint64_t nbf, uint64_t exp, uint64_t skew, bool dflt) {
  Jwt j;
  j.nbf_ = nbf;
  j.exp_ = exp;
  if (dflt) skew = 60;
  Status st = dflt ? j.verifyTimeConstraint(now) : j.verifyTimeConstraint(now, skew);
  Status want = Status::Ok;
  if (static_cast<u128>(now) + skew < nbf) want = Status::JwtNotYetValid;
  else if (exp != 0 && static_cast<u128>(now) > static_cast<u128>(exp) + skew) want = Status::JwtExpired;
  uint64_t k[5] = {now, nbf, exp, skew, dflt};
  // non-trivial: a limit is set and near or past it, or a sum wraps
  bool nt = nbf != 0 || exp != 0;
  r.eval(fnv(k, sizeof k), nt);
  r.count(want == Status::Ok ? "want:ok" : want == Status::JwtExpired ? "want:expired" : "want:notyet");
  if (st != want) {
    std::string s = "now=" + std::to_string(now) + " nbf=" + std::to_string(nbf) + " exp=" + std::to_string(exp) + " skew=" + (dflt ? "default" : std::to_string(skew));
    r.fail("C07/" + std::to_string(static_cast<int>(want)) + "-" + std::to_string(static_cast<int>(st)), "got " + statusName(st) + ", want " + statusName(want), s);
  }
  // the same limits through the verification of a correctly signed token
  if (r.evals % 8 == 0) {
    static Key* key = [] { Key* x = new Key; x->t = KT::OCT; x->name = "oct"; x->secret = "0123456789abcdef"; return x; }();
    static JwksPtr set = [] { SetKey sk; sk.k = key; return buildSet({sk}, nullptr); }();
    static const std::string text = [] { std::string d = b64("{\"alg\":\"HS256\"}") + "." + b64("{}"); return d + "." + b64(signHmac(key->secret, 256, d)); }();
    static Jwt* tok = [] { Jwt* t = new Jwt; t->parseFromString(text); return t; }();
    tok->nbf_ = nbf;
    tok->exp_ = exp;
    Status v = dflt ? google::jwt_verify::verifyJwt(*tok, *set, now) : google::jwt_verify::verifyJwt(*tok, *set, now, skew);
    r.count("through_verifyJwt");
    if (v != want) r.fail("C07/verifyJwt", "verifyJwt gives " + statusName(v) + ", want " + statusName(want), "now=" + std::to_string(now) + " nbf=" + std::to_string(nbf) + " exp=" + std::to_string(exp) + " skew=" + (dflt ? "default" : std::to_string(skew)));
  }
  if (r.evals % 100003 == 1) r.sample("now=" + std::to_string(now) + " nbf=" + std::to_string(nbf) + " exp=" + std::to_string(exp) + " skew=" + std::to_string(skew) + " -> " + statusName(st));
}

void evalTime(Run& r) {
  const auto& e = edges();
  Rng g = r.caseRng();
  if (r.cur < e.size()) {  // boundary values: all combinations, one case per now
    uint64_t now = e[r.cur];
    for (uint64_t a : e) {
      for (uint64_t s : e) {
        timeOne(r, now, a, 0, s, false);
        timeOne(r, now, 0, a, s, false);
        timeOne(r, now, a, a, s, false);
      }
      timeOne(r, now, a, 0, 0, true);
      timeOne(r, now, 0, a, 0, true);
      for (uint64_t b : e) timeOne(r, now, a, b, 0, true);
    }
    return;
  }
  if (r.cur < e.size() + 14) {  // all small values
    uint64_t now = r.cur - e.size();
    for (uint64_t a = 0; a < 14; a++) for (uint64_t b = 0; b < 14; b++) for (uint64_t s = 0; s < 14; s++) timeOne(r, now, a, b, s, false);
    return;
  }
  if (r.cur < e.size() + 30) {  // the same near the top
    uint64_t now = UINT64_MAX - (r.cur - e.size() - 14);
    for (uint64_t a = 0; a < 14; a++) for (uint64_t b = 0; b < 14; b++) for (uint64_t s = 0; s < 14; s++) {
      timeOne(r, now, UINT64_MAX - a, UINT64_MAX - b, s, false);
      timeOne(r, now, UINT64_MAX - a, UINT64_MAX - b, UINT64_MAX - s, false);
    }
    return;
  }
  for (int i = 0; i < 2000; i++) {
    auto rnd = [&]() -> uint64_t { return g.chance(1, 6) ? g.pick(e) : g.u64() >> g.below(64); };
    uint64_t now = rnd(), skew = g.chance(1, 4) ? 60 : rnd();
    auto near = [&](uint64_t base) -> uint64_t { return g.chance(1, 3) ? rnd() : base + static_cast<uint64_t>(g.range(-3, 3)); };
    uint64_t nbf = g.chance(1, 4) ? 0 : near(now + skew), exp = g.chance(1, 4) ? 0 : near(now - skew);
    timeOne(r, now, nbf, exp, skew, g.chance(1, 8));
  }
}

// ---- C08 ------------------------------------------------------------------
std::string norm(std::string s) {
  for (const char* p : {"http://", "https://"}) {
    std::string q = p;
    if (s.compare(0, q.size(), q) == 0) { s = s.substr(q.size()); break; }
  }
  if (!s.empty() && s.back() == '/') s.pop_back();
  return s;
}
const std::vector<std::string>& auds() {
  static const auto* v = [] {
    std::set<std::string> w;
    std::vector<std::string> pre = {"", "http://", "https://", "HTTP://", "Https://", "http:/", "https:", "http", "ftp://", "ttp://", "https//", "http://https://", "https://http://", "http://http://", "//", " http://", "httpss://"};
    std::vector<std::string> mid = {"", "a", "A", "ab", "b", "a/b", "/a", "a//", "a.com", "a.com.", "a.com/x", "a.com:80", std::string("a\0", 2), std::string("a\0b", 3), std::string("\0", 1), "\xc3\xa9", "a?", "a "};
    std::vector<std::string> suf = {"", "/", "//", "/ ", "///", "/\\", std::string("/\0", 2)};
    for (auto& p : pre) for (auto& m : mid) for (auto& s : suf) w.insert(p + m + s);
    return new std::vector<std::string>(w.begin(), w.end());
  }();
  return *v;
}

bool audWant(const std::vector<std::string>& cfg, const std::vector<std::string>& tok) {
  if (cfg.empty()) return true;
  for (auto& t : tok) for (auto& c : cfg) if (norm(t) == norm(c)) return true;
  return false;
}
std::string lst(const std::vector<std::string>& v) {
  std::string r = "[";
  for (auto& s : v) r += "\"" + s + "\" ";
  return r + "]";
}
void audOne(Run& r, const CheckAudience& ca, const std::vector<std::string>& cfg, const std::vector<std::string>& tok) {
  bool got = ca.areAudiencesAllowed(tok), want = audWant(cfg, tok);
  uint64_t h = 7;
  for (auto& s : cfg) h = fnv(s, h);
  h = fnv("|", 1, h);
  for (auto& s : tok) h = fnv(s, h);
  r.eval(h, !cfg.empty() && !tok.empty());
  r.count(want ? "want:allowed" : "want:refused");
  if (got != want) r.fail(std::string("C08/") + (got ? "allowed" : "refused"), std::string(got ? "allowed" : "refused") + ", want the contrary", "config " + lst(cfg) + " token " + lst(tok));
  if (ca.empty() != cfg.empty()) r.fail("C08/empty", "empty() is wrong", "config " + lst(cfg));
  if (r.evals % 200003 == 1) r.sample("config " + lst(cfg) + " token " + lst(tok) + (got ? " allowed" : " refused"));
}

void evalAud(Run& r) {
  const auto& a = auds();
  Rng g = r.caseRng();
  if (r.cur < a.size()) {  // all pairs
    std::vector<std::string> cfg{a[r.cur]};
    CheckAudience ca(cfg);
    for (auto& t : a) audOne(r, ca, cfg, {t});
    audOne(r, ca, cfg, {});
    CheckAudience none({});
    audOne(r, none, {}, cfg);
    return;
  }
  for (int i = 0; i < 100; i++) {
    auto rs = [&]() -> std::string {
      if (g.chance(1, 2)) return g.pick(a);
      if (g.chance(1, 2)) {
        std::string s;
        for (int n = static_cast<int>(g.below(7)); n--;) s += g.pick(std::vector<std::string>{"http", "s", ":", "//", "/", "a", "https://", "http://", std::string(1, 0), "H"});
        return s;
      }
      if (g.chance(1, 20)) return std::string(g.below(5000), 'x') + (g.chance(1, 2) ? "/" : "");
      return genStr(g);
    };
    std::vector<std::string> cfg, tok;
    for (int n = static_cast<int>(g.below(5)); n--;) cfg.push_back(rs());
    for (int n = static_cast<int>(g.below(5)); n--;) tok.push_back(!cfg.empty() && g.chance(1, 3) ? g.pick(std::vector<std::string>{"", "http://", "https://"}) + norm(g.pick(cfg)) + g.pick(std::vector<std::string>{"", "/", "//"}) : rs());
    // Long lists: what matters may come last.
    for (auto* l : {&cfg, &tok}) {
      if (!g.chance(1, 150)) continue;
      int n = static_cast<int>(g.chance(1, 2) ? dictInt(g, 1200) : g.below(1200));
      const char* pre = l == &cfg ? "https://c" : "t";
      std::vector<std::string> f;
      while (static_cast<int>(f.size()) < n) f.push_back(pre + std::to_string(f.size()) + (g.chance(1, 9) ? "/" : ""));
      if (g.chance(1, 2)) l->insert(l->begin(), f.begin(), f.end());
      else for (auto& x : f) l->insert(l->begin() + g.below(l->size() + 1), x);
      r.count("long_lists");
    }
    CheckAudience ca(cfg);
    audOne(r, ca, cfg, tok);
    if (g.chance(1, 4)) { g.shuffle(tok); audOne(r, ca, cfg, tok); }
    audOne(r, ca, cfg, {});
  }
}

// ---- C16 ------------------------------------------------------------------
double genDouble(Rng& g) {
  const double I = std::numeric_limits<double>::infinity();
  static const double fixed[] = {0.0, -0.0, 0.5, -0.5, 1, -1, 1.999999, 4294967296.5, 9007199254740993.0, 9223372036854775807.0, 9223372036854775808.0, 18446744073709549568.0,
                                 18446744073709551616.0, 18446744073709551616.0 * 2, 1e300, -1e300, 5e-324, -5e-324, I, -I, std::nan(""), -std::nan(""), 1e19, 0.99999999999999989};
  if (g.chance(3, 4)) return fixed[g.below(sizeof fixed / sizeof *fixed)];
  uint64_t u = g.u64();
  double d;
  memcpy(&d, &u, 8);
  return d;
}
void genPbStruct(Rng& g, PbStruct* s, int depth);
void genPbValue(Rng& g, PbValue* v, int depth) {
  switch (g.below(depth > 0 ? 10 : 6)) {
    case 0: v->set_null_value(google::protobuf::NULL_VALUE); break;
    case 1: v->set_bool_value(g.chance(1, 2)); break;
    case 2: v->set_number_value(genDouble(g)); break;
    case 3: v->set_string_value(genStr(g)); break;
    case 4: {
      auto* l = v->mutable_list_value();
      bool strs = g.chance(2, 3);
      for (int n = static_cast<int>(g.chance(1, 150) ? dictInt(g, 1200) : g.below(4)); n-- > 0;) {
        if (strs) l->add_values()->set_string_value(genStr(g, 8));
        else genPbValue(g, l->add_values(), 0);
      }
      break;
    }
    case 5: break;  // no kind set
    default: genPbStruct(g, v->mutable_struct_value(), depth - 1);
  }
}
const std::vector<std::string>& names() {
  static const auto* v = new std::vector<std::string>{"a", "b", "c", "iss", "exp", "", "a.b", "a.", ".a", "A", "\xc3\xa9", std::string("a\0", 2), "a b", ".", "aa", "a\\", "[0]", "*", "a/b", "\"a\"", "0"};
  return *v;
}
void genPbStruct(Rng& g, PbStruct* s, int depth) {
  for (int n = static_cast<int>(g.below(6)); n--;) {
    PbValue v;
    genPbValue(g, &v, depth);
    (*s->mutable_fields())[g.pick(names())] = v;
  }
}

// Walks down the model; the oracle for every getter.
struct Found { StructUtils::FindResult res; const PbValue* v; };
Found walk(const PbStruct& s, const std::string& name) {
  std::vector<std::string> parts(1);
  for (char c : name) { if (c == '.') parts.emplace_back(); else parts.back() += c; }
  const PbStruct* cur = &s;
  for (size_t i = 0; i < parts.size(); i++) {
    const PbValue* v = nullptr;
    for (auto& kv : cur->fields()) if (kv.first == parts[i]) v = &kv.second;
    if (!v) return {StructUtils::MISSING, nullptr};
    if (i + 1 == parts.size()) return {StructUtils::OK, v};
    if (v->kind_case() != PbValue::kStructValue) return {StructUtils::WRONG_TYPE, nullptr};
    cur = &v->struct_value();
  }
  return {StructUtils::MISSING, nullptr};
}

void evalLookup(Run& r) {
  Rng g = r.caseRng();
  PbStruct s;
  genPbStruct(g, &s, 3);
  if (g.chance(1, 40)) {  // deep inside
    for (int n = static_cast<int>(g.chance(1, 2) ? 1 + g.below(12) : g.chance(1, 2) ? dictInt(g, 300) : g.below(300)); n-- > 0;) {
      PbStruct o;
      if (g.chance(1, 4)) genPbStruct(g, &o, 0);
      std::string name = g.pick(names());
      (*o.mutable_fields())[name].mutable_struct_value()->Swap(&s);
      s.Swap(&o);
    }
    r.count("deep");
  }
  if (g.chance(1, 1000)) {  // among many others
    for (int n = 1 + static_cast<int>(g.below(3000)); n--;) (*s.mutable_fields())["m" + std::to_string(n)].set_number_value(n);
    r.count("wide");
  }
  std::string before = s.ShortDebugString();
  std::vector<std::string> paths;
  for (auto& n : names()) paths.push_back(n);
  // every path that exists, and variations
  std::function<void(const PbStruct&, std::string)> rec = [&](const PbStruct& x, std::string pre) {
    for (auto& kv : x.fields()) {
      paths.push_back(pre + kv.first);
      if (g.chance(1, 3)) paths.push_back(pre + kv.first + "." + g.pick(names()));
      if (g.chance(1, 6)) paths.push_back(pre + kv.first + ".");
      if (g.chance(1, 6)) paths.push_back(pre + "." + kv.first);
      if (g.chance(1, 8) && !kv.first.empty()) paths.push_back(pre + kv.first.substr(0, kv.first.size() - 1));
      if (g.chance(1, 8)) paths.push_back(pre + kv.first + "x");
      if (g.chance(1, 4)) {  // as other notations have it
        static const std::vector<std::string> seps{"\\.", "/", "->", ":", "[0].", "..", " . ", "%2E", "\\", ",", "|", "[", "\".\"", "'.'", "$."};
        std::string q = pre + kv.first;
        size_t dot = q.find('.');
        if (dot != std::string::npos && g.chance(1, 3)) dot = q.rfind('.');
        paths.push_back(dot == std::string::npos ? g.pick(seps) + q : q.substr(0, dot) + g.pick(seps) + q.substr(dot + 1));
        if (g.chance(1, 4)) paths.push_back(g.pick(std::vector<std::string>{"/", "$.", "$", "\"", "'", " ", "[", "\\"}) + q);
        if (g.chance(1, 4)) paths.push_back(q + g.pick(std::vector<std::string>{"[0]", ".0", ".*", "*", "[]", "\"", " ", "?", "\\", "#"}));
      }
      if (kv.second.kind_case() == PbValue::kStructValue) rec(kv.second.struct_value(), pre + kv.first + ".");
    }
  };
  rec(s, "");
  while (paths.size() > 300) { std::swap(paths[g.below(paths.size())], paths.back()); paths.pop_back(); }
  StructUtils u(s);
  static const char* rn[] = {"OK", "MISSING", "WRONG_TYPE", "OUT_OF_RANGE"};
  for (auto& p : paths) {
    Found f = walk(s, p);
    auto bad = [&](const char* getter, const std::string& m) { r.fail(std::string("C16/") + getter, m, "name \"" + p + "\" in " + before); };
    auto cmp = [&](const char* getter, StructUtils::FindResult got, StructUtils::FindResult want) {
      r.count(std::string(getter) + ":" + rn[want]);
      if (got != want) { bad(getter, std::string("got ") + rn[got & 3] + ", want " + rn[want]); return false; }
      return true;
    };
    auto kind = f.v ? f.v->kind_case() : PbValue::KIND_NOT_SET;
    auto want = [&](PbValue::KindCase k) { return f.res != StructUtils::OK ? f.res : kind == k ? StructUtils::OK : StructUtils::WRONG_TYPE; };
    {
      const PbValue* v = nullptr;
      if (cmp("GetValue", u.GetValue(p, v), f.res) && f.res == StructUtils::OK && v != f.v) bad("GetValue", "another value");
    }
    {
      std::string o = "untouched\x01";
      auto w = want(PbValue::kStringValue);
      if (cmp("GetString", u.GetString(p, &o), w) && o != (w == StructUtils::OK ? f.v->string_value() : "untouched\x01")) bad("GetString", "output is wrong: " + o);
    }
    {
      double o = 12345.678;
      auto w = want(PbValue::kNumberValue);
      double e = w == StructUtils::OK ? f.v->number_value() : 12345.678;
      if (cmp("GetDouble", u.GetDouble(p, &o), w) && memcmp(&o, &e, 8) != 0) bad("GetDouble", "output is wrong");
    }
    {
      uint64_t o = 0xdeadbeefcafef00dULL, e = o;
      auto w = want(PbValue::kNumberValue);
      if (w == StructUtils::OK) {
        double d = f.v->number_value();
        if (d >= 0 && d < 18446744073709551616.0) e = static_cast<uint64_t>(d);
        else w = StructUtils::OUT_OF_RANGE;
      }
      if (cmp("GetUInt64", u.GetUInt64(p, &o), w) && o != e) bad("GetUInt64", "output is " + std::to_string(o) + ", want " + std::to_string(e));
    }
    for (bool init : {false, true}) {
      bool o = init;
      auto w = want(PbValue::kBoolValue);
      if (cmp("GetBoolean", u.GetBoolean(p, &o), w) && o != (w == StructUtils::OK ? f.v->bool_value() : init)) bad("GetBoolean", "output is wrong");
    }
    {
      std::vector<std::string> o, e;
      auto w = f.res;
      if (w == StructUtils::OK) {
        if (kind == PbValue::kStringValue) e.push_back(f.v->string_value());
        else if (kind == PbValue::kListValue) {
          for (auto& x : f.v->list_value().values()) {
            if (x.kind_case() != PbValue::kStringValue) w = StructUtils::WRONG_TYPE;
            else e.push_back(x.string_value());
          }
        } else w = StructUtils::WRONG_TYPE;
      }
      bool same = cmp("GetStringList", u.GetStringList(p, &o), w);
      if (same && w == StructUtils::OK && o != e) bad("GetStringList", "list is wrong");
      if (same && f.res != StructUtils::OK && !o.empty()) bad("GetStringList", "list written though nothing was found");
    }
    r.eval(fnv(p, fnv(before)), f.res != StructUtils::MISSING);
    if (r.evals % 50021 == 1) r.sample("name \"" + p + "\" in " + before);
  }
  if (s.ShortDebugString() != before) r.fail("C16/modified", "lookups changed the object", before);
}

// ---- C17 ------------------------------------------------------------------
// Whether a code has a name: the compiler spells a value of an enumeration as
// its enumerator's name when there is one, and as a cast number otherwise. So
// the codes are the ones the header declares, not those known when this was
// written.
template <Status V>
bool named() {
  const std::string s = __PRETTY_FUNCTION__;
  const size_t at = s.find("V = ");
  return at != std::string::npos && s.compare(at + 4, 1, "(") != 0 && !isdigit(static_cast<unsigned char>(s[at + 4])) && s[at + 4] != '-';
}
const int kLowest = -16, kCodes = 512;
template <int... I>
std::set<int> declared(std::integer_sequence<int, I...>) {
  std::set<int> out;
  (void)std::initializer_list<int>{(named<static_cast<Status>(I + kLowest)>() ? (out.insert(I + kLowest), 0) : 0)...};
  return out;
}

void evalStatus(Run& r) {
  std::set<int> codes = declared(std::make_integer_sequence<int, kCodes>());
  for (int i = 0; i <= static_cast<int>(Status::JwksBioAllocError); i++) codes.insert(i);
  std::map<std::string, int> seen;
  // several passes: the description of a code never changes
  for (int pass = 0; pass < 3; pass++)
    for (int i : codes) {
      std::string s = google::jwt_verify::getStatusString(static_cast<Status>(i));
      r.eval(fnv(s, i), true);
      r.count("codes");
      if (r.samples.size() < 3) r.sample(std::to_string(i) + ": " + s);
      bool blank = true;
      for (unsigned char c : s) if (c > ' ') blank = false;
      if (blank) r.fail("C17/empty/" + std::to_string(i), "no description", std::to_string(i));
      auto ins = seen.insert({s, i});
      if (ins.first->second != i) r.fail("C17/shared/" + std::to_string(i), "codes " + std::to_string(ins.first->second) + " and " + std::to_string(i) + " share the description \"" + s + "\"", s);
      if (pass > 0 && ins.second) r.fail("C17/unstable/" + std::to_string(i), "the description of code " + std::to_string(i) + " changed", s);
    }
}
}  // namespace

int main(int argc, char** argv) {
  return runMain(argc, argv, [] {}, [](Run& r) {
    if (r.prop == "C07") evalTime(r);
    else if (r.prop == "C08") evalAud(r);
    else if (r.prop == "C16") evalLookup(r);
    else evalStatus(r);
  });
}
