// Coverage-guided exploration (libFuzzer) of the parsers, importers, audience
// and claim lookup, for C12 (sanitizers decide) and C04/C05 (the independent
// parser decides). The first byte of an input chooses the entry point. The
// input being run is kept in a file mapped into memory, so that it survives a
// crash.
#include <sys/stat.h>
#include <unistd.h>

#include "gen.h"
#include "jwt_verify_lib/check_audience.h"
#include "jwt_verify_lib/struct_utils.h"

extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t*, size_t));

using namespace vh;
using google::jwt_verify::CheckAudience;
using google::jwt_verify::StructUtils;
using google::jwt_verify::verifyJwt;
using google::jwt_verify::verifyJwtWithoutTimeChecking;

namespace {
const size_t kMax = 1 << 16;
unsigned char* g_cur;  // 8 bytes of length, then the input
volatile uint64_t g_sink;
JwksPtr g_keys;
std::vector<std::string> g_toks;
std::vector<Jwt> g_jwts;
bool g_ok = false;

std::vector<std::string> split(const std::string& s) {
  std::vector<std::string> v{""};
  for (char c : s) {
    if (c == 0 && v.size() < 8) v.emplace_back();
    else v.back() += c;
  }
  while (v.size() < 4) v.emplace_back();
  return v;
}

std::string stdB64(const std::string& s) {
  std::string r = b64(s);
  for (auto& c : r) c = c == '-' ? '+' : c == '_' ? '/' : c;
  while (r.size() % 4) r += '=';
  return r;
}

void tokenOracle(Run& r, const std::string& text) {
  Parsed p = oracleParse(text);
  Jwt j;
  Status st = j.parseFromString(text);
  uint64_t n;
  memcpy(&n, g_cur, 8);
  std::string in = "fuzz:" + hex(std::string(reinterpret_cast<char*>(g_cur) + 8, n), kMax) + "\ntoken: " + text;
  if (r.prop == "C04") {
    r.count(p.mustAccept() ? "fuzz:oracle:accept" : p.mustReject() ? "fuzz:oracle:reject" : "fuzz:oracle:open");
    if (p.mustAccept() && st != Status::Ok) r.fail("C04/rejected/" + std::to_string(static_cast<int>(st)), "well-formed token rejected with " + statusName(st), in);
    if (p.mustReject() && st == Status::Ok) r.fail("C04/accepted/" + std::to_string(static_cast<int>(*p.defects.begin())), "accepted, but has the defect " + statusName(*p.defects.begin()), in);
    if (!p.mustReject() && st == Status::Ok) {
      std::string d = diffFields(j, p, text);
      if (!d.empty()) r.fail("C04/field/" + d, "field " + d + " is not what the token encodes", in);
    }
  } else if (st != Status::Ok) {
    if (!p.defects.count(st) && !p.lenientDefects.count(st)) r.fail("C05/" + std::to_string(static_cast<int>(st)), "status " + statusName(st) + " is not a defect of this token", in);
  }
}

void withToken(const std::string& text) {
  Jwt j;
  j.parseFromString(text);
  if (verifyJwtWithoutTimeChecking(j, *g_keys) == Status::Ok) g_sink++;
  verifyJwt(j, *g_keys, std::vector<std::string>{"a"}, 1000);
  StructUtils u(j.payload_pb_);
  const google::protobuf::Value* v;
  u.GetValue("a.b", v);
  Jwt c(j);
  c.parseFromString(c.payload_str_);
}
void withKeys(const JwksPtr& s) {
  for (auto& j : g_jwts) verifyJwtWithoutTimeChecking(j, *s);
}

int one(const uint8_t* d, size_t n) {
  Run& r = R();
  n = std::min(n, kMax - 8);
  uint64_t n64 = n;
  memcpy(g_cur, &n64, 8);
  memcpy(g_cur + 8, d, n);
  r.cur++;
  *r.progress = r.cur + 1;
  if (!n) return 0;
  std::string s(reinterpret_cast<const char*>(d) + 1, n - 1);
  auto tok = [&](const std::string& t) { r.prop == "C12" ? withToken(t) : tokenOracle(r, t); };
  int mode = d[0] % (r.prop == "C12" ? 10 : 2);
  r.count("fuzz:mode" + std::to_string(mode));
  r.eval(fnv(s, d[0]));
  switch (mode) {
    case 0: tok(s); break;
    case 1: {
      auto v = split(s);
      tok(b64(v[0]) + "." + b64(v[1]) + "." + b64(v[2]));
      break;
    }
    case 2: withKeys(Jwks::createFrom(s, Jwks::JWKS)); break;
    case 3: withKeys(Jwks::createFrom(s, Jwks::PEM)); break;
    case 4: {  // one key from its parts
      auto v = split(s);
      std::string a = v[0].empty() ? "" : ",\"alg\":\"" + jsonEscape(v[0]) + "\"";
      std::string docs[] = {"{\"keys\":[{\"kty\":\"RSA\",\"n\":\"" + b64(v[1]) + "\",\"e\":\"" + b64(v[2]) + "\"" + a + "}]}",
                            "{\"keys\":[{\"kty\":\"EC\",\"crv\":\"P-" + std::string(v[3].size() % 3 == 0 ? "256" : v[3].size() % 3 == 1 ? "384" : "521") + "\",\"x\":\"" + b64(v[1]) + "\",\"y\":\"" + b64(v[2]) + "\"" + a + "}]}",
                            "{\"keys\":[{\"kty\":\"OKP\",\"crv\":\"Ed25519\",\"x\":\"" + b64(v[1]) + "\"" + a + "},{\"kty\":\"oct\",\"k\":\"" + b64(v[2]) + "\"" + a + "}]}"};
      for (auto& doc : docs) withKeys(Jwks::createFrom(doc, Jwks::JWKS));
      break;
    }
    case 5: {  // a certificate from its DER
      std::string b = stdB64(s);
      withKeys(Jwks::createFrom("{\"k1\":\"-----BEGIN CERTIFICATE-----\\n" + b + "\\n-----END CERTIFICATE-----\\n\"}", Jwks::JWKS));
      break;
    }
    case 6: {  // a PEM key from its DER
      std::string p = "-----BEGIN PUBLIC KEY-----\n" + stdB64(s) + "\n-----END PUBLIC KEY-----\n";
      JwksPtr k = Jwks::createFromPem(p, "k", "");
      k->addKeyFromPem(p, "", "RS256");
      withKeys(k);
      break;
    }
    case 7: {  // a signature for each alg
      auto v = split(s);
      for (auto& t : g_toks) {
        Jwt j;
        j.parseFromString(t.substr(0, t.rfind('.')) + "." + b64(s));
        verifyJwtWithoutTimeChecking(j, *g_keys);
      }
      break;
    }
    case 8: {
      auto v = split(s);
      CheckAudience c(v), e({s});
      if (c.areAudiencesAllowed(v) && e.areAudiencesAllowed({v[0]})) g_sink++;
      c.areAudiencesAllowed({s, v[1]});
      break;
    }
    default: {
      auto v = split(s);
      google::protobuf::Struct st;
      Jwt j;
      j.parseFromString(b64("{\"alg\":\"HS256\"}") + "." + b64(v[0]) + ".AAAA");
      StructUtils u(j.payload_pb_);
      for (size_t i = 1; i < v.size(); i++) {
        std::string x;
        double dd;
        uint64_t q;
        bool b;
        std::vector<std::string> l;
        u.GetString(v[i], &x);
        u.GetDouble(v[i], &dd);
        u.GetUInt64(v[i], &q);
        u.GetBoolean(v[i], &b);
        u.GetStringList(v[i], &l);
      }
    }
  }
  if (r.viol_keys.size() >= 6) exit(0);
  return 0;
}

void seeds(const std::string& dir, Rng& g) {
  int n = 0;
  auto put = [&](int mode, const std::string& s) {
    if (s.size() > 8000) return;
    FILE* f = fopen((dir + "/s" + std::to_string(n++)).c_str(), "wb");
    fputc(mode, f);
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
  };
  auto z = [](const std::string& a, const std::string& b, const std::string& c) { return a + std::string(1, 0) + b + std::string(1, 0) + c; };
  bool all = R().prop == "C12";
  for (int i = 0; i < 24; i++) {
    T t = genToken(g, i < 12 ? 0 : 1);
    put(0, t.text);
    put(1, z(t.rawH, t.rawP, t.sig));
    if (!all) continue;
    put(2, genJwksDoc(g));
    put(2, genX509Doc(g));
    std::string w, p = genPem(g, &w);
    put(3, p);
    size_t a = p.find('\n'), b = p.rfind("-----END");
    if (a != std::string::npos && b != std::string::npos && a < b) {
      std::string der;
      for (char c : p.substr(a, b - a)) if (c > ' ') der += c == '+' ? '-' : c == '/' ? '_' : c;
      while (!der.empty() && der.back() == '=') der.pop_back();
      std::string bin;
      if (unb64(der, &bin) != B64::BAD) put(6, bin);
    }
    put(7, g.bytes(g.pick(std::vector<int>{32, 48, 64, 96, 132, 256, 512})));
    put(8, z("http://a/", "https://b", "c/"));
    put(9, z(t.rawP, "a.b", "iss"));
  }
  if (!all) return;
  for (auto* k : pool().good) {
    if (k->t == KT::RSA) {
      put(4, z("RS256", k->n, k->e));
      std::string c = k->crt;
      size_t a = c.find("CERTIFICATE-----"), b = c.rfind("-----END");
      std::string der;
      if (a != std::string::npos && b != std::string::npos && a + 16 < b)
        for (char ch : c.substr(a + 16, b - a - 16)) if (ch > ' ') der += ch == '+' ? '-' : ch == '/' ? '_' : ch;
      while (!der.empty() && der.back() == '=') der.pop_back();
      std::string bin;
      if (!der.empty() && unb64(der, &bin) != B64::BAD) put(5, bin);
    }
    if (k->t == KT::EC) put(4, z("", k->x, k->y) + std::string(1, 0) + "ab");
    if (k->t == KT::OKP) put(4, z("EdDSA", k->x, "secret"));
  }
}

}  // namespace

int main(int argc, char** argv) {
  return runMain(argc, argv, [] {}, [](Run& r) {
    static bool done = false;
    if (done) return;
    done = true;
    const char* d = getenv("VERIF_KEYS");
    pool().load(d ? d : "/verif/keys", r.seed, true);
    std::vector<SetKey> v;
    Rng g = r.caseRng(r.shard);
    for (auto* k : pool().good) { SetKey s; s.k = k; v.push_back(s); }
    g_keys = buildSet(v, nullptr);
    for (auto& a : allAlgs()) {
      for (auto* k : pool().good)
        if (fits(a, *k)) {
          std::string x = b64("{\"alg\":\"" + a + "\"}") + "." + b64("{}");
          g_toks.push_back(x + "." + b64(sign(a, *k, x)));
          break;
        }
    }
    g_jwts.resize(g_toks.size());
    for (size_t i = 0; i < g_toks.size(); i++) g_jwts[i].parseFromString(g_toks[i]);
    std::string f = r.outdir + "/input." + std::to_string(r.shard);
    int fd = open(f.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, kMax)) r.harnessError("input file");
    g_cur = static_cast<unsigned char*>(mmap(nullptr, kMax, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    r.cur = 0;
    if (const char* rep = getenv("VERIF_INPUT")) {
      std::string in = readFile(rep);
      one(reinterpret_cast<const uint8_t*>(in.data()), in.size());
      return;
    }
    std::string dir = r.outdir + "/corpus." + std::to_string(r.shard);
    mkdir(dir.c_str(), 0700);
    seeds(dir, g);
    atexit([] { R().finish(); });
    std::vector<std::string> a{"fuzz", "-runs=" + std::to_string(r.cases / r.nshards), "-seed=" + std::to_string(1 + (g.u64() & 0xffffff)), "-max_len=6000", "-timeout=60", "-rss_limit_mb=6000", "-detect_leaks=0",
                               "-len_control=20", "-print_final_stats=0", "-artifact_prefix=" + r.outdir + "/crash.", dir};
    std::vector<char*> p;
    for (auto& s : a) p.push_back(&s[0]);
    int n = static_cast<int>(p.size());
    char** pp = p.data();
    exit(LLVMFuzzerRunDriver(&n, &pp, one));
  });
}
