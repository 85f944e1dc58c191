// C09: what each entry point of verification enforces, under a virtual clock.
#include "clock.h"
#include "absl/time/clock.h"
#include "sets.h"

using namespace vh;
using google::jwt_verify::verifyJwt;
using google::jwt_verify::verifyJwtWithoutTimeChecking;

namespace {
std::string norm(std::string s) {
  for (const char* p : {"http://", "https://"}) {
    std::string q = p;
    if (s.compare(0, q.size(), q) == 0) { s = s.substr(q.size()); break; }
  }
  if (!s.empty() && s.back() == '/') s.pop_back();
  return s;
}

std::set<Status> timeFails(uint64_t now, uint64_t skew, uint64_t nbf, uint64_t exp) {
  std::set<Status> r;
  typedef unsigned __int128 u128;
  if (static_cast<u128>(now) + skew < nbf) r.insert(Status::JwtNotYetValid);
  if (exp != 0 && static_cast<u128>(now) > static_cast<u128>(exp) + skew) r.insert(Status::JwtExpired);
  return r;
}

void one(Run& r) {
  Rng g = r.caseRng();
  // the system's time
  static const int64_t secs[] = {0, 1, 59, 60, 61, 120, 1000, 1501281058, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, 7258118400LL};
  int64_t sysSec = g.chance(1, 2) ? secs[g.below(sizeof secs / sizeof *secs)] : static_cast<int64_t>(g.below(8000000000ULL));
  VClock::ns = sysSec * 1000000000LL + (g.chance(1, 6) ? 0 : g.chance(1, 6) ? 999999999 : static_cast<int64_t>(g.below(1000000000)));
  // times given by the caller
  uint64_t now = g.chance(1, 3) ? static_cast<uint64_t>(sysSec) : g.chance(1, 10) ? g.u64() : static_cast<uint64_t>(sysSec) + g.range(-200, 200);
  uint64_t skew = g.chance(1, 3) ? 60 : g.chance(1, 3) ? 0 : g.chance(1, 20) ? UINT64_MAX - g.below(3) : g.below(200);
  auto limit = [&](int sign) -> uint64_t {
    uint64_t base = g.chance(1, 2) ? static_cast<uint64_t>(sysSec) : now;
    uint64_t sk = g.chance(1, 2) ? 60 : skew;
    int d = g.range(-2, 2);
    if (g.chance(1, 3)) return base + g.range(-300, 300);
    return (sign > 0 ? base + sk : base - sk) + d;
  };
  uint64_t nbf = g.chance(1, 3) ? 0 : limit(1), exp = g.chance(1, 3) ? 0 : limit(-1);
  auto rep = [](uint64_t v) { return v < (1ULL << 53) ? v : v > UINT64_MAX - 4096 ? 0 : v & ~4095ULL; };
  nbf = rep(nbf); exp = rep(exp);

  // token and keys
  std::string alg = g.chance(2, 3) ? "HS256" : g.chance(1, 2) ? "EdDSA" : g.pick(allAlgs());
  const Key* k = nullptr;
  do k = g.pick(pool().good); while (!fits(alg, *k) || (k->t == KT::RSA && k->n.size() > 260));
  J p = J::obj();
  if (nbf || g.chance(1, 6)) p.set("nbf", J::num(nbf));
  if (exp || g.chance(1, 6)) p.set("exp", J::num(exp));
  if (g.chance(1, 3)) p.set("iat", J::num(g.below(8000000000ULL)));
  static const std::vector<std::string> A = {"a.com", "http://a.com", "https://a.com/", "a.com/", "b.org", "https://b.org/x", "b.org/x/", "c", "", "http://", "C", "a.com//", "ftp://a.com"};
  std::vector<std::string> taud, caud;
  for (int n = static_cast<int>(g.below(4)); n--;) taud.push_back(g.pick(A));
  for (int n = static_cast<int>(g.below(4)); n--;) caud.push_back(g.pick(A));
  if (taud.size() == 1 && g.chance(1, 2)) p.set("aud", J::str(taud[0]));
  else if (!taud.empty() || g.chance(1, 4)) { std::vector<J> l; for (auto& a : taud) l.push_back(J::str(a)); p.set("aud", J::list(l)); }
  g.shuffle(p.o);
  std::string d = b64(render(genHeader(g, alg))) + "." + b64(render(p));
  std::string sig = sign(alg, *k, d);
  if (sig.empty()) return;
  std::vector<SetKey> set;
  SetKey s; s.k = k; s.hasAlg = g.chance(1, 2); s.alg = alg;
  int w = static_cast<int>(g.below(8));
  bool sigOk = true;
  if (w == 0) { sig[g.below(sig.size())] ^= 4; sigOk = false; }
  else if (w == 1) { const Key* o; do o = g.pick(pool().good); while (o == k || o->x + o->n + o->secret == k->x + k->n + k->secret); s.k = o; s.hasAlg = false; sigOk = false; }
  else if (w == 2) { sig = sig.substr(0, sig.size() - 1); sigOk = false; if (sig.empty()) return; }
  legalize(s, g);
  if (!(w == 3)) set.push_back(s);
  else sigOk = false;  // no key at all
  std::string docs;
  JwksPtr keys = buildSet(set, nullptr, &docs);
  std::string text = d + "." + b64(sig);
  Jwt j;
  Status ps = j.parseFromString(text);
  if (ps != Status::Ok) { r.fail("C09/parse", "well-formed token rejected by the parser: " + statusName(ps), text); return; }

  std::set<Status> sigFails;
  if (!sigOk) sigFails = {Status::JwtVerificationFail, Status::JwksKidAlgMismatch, Status::JwtEd25519SignatureWrongLength};
  bool audOk = caud.empty();
  for (auto& t : taud) for (auto& c : caud) if (norm(t) == norm(c)) audOk = true;

  auto in = [&] {
    std::string a, c;
    for (auto& x : taud) a += "\"" + x + "\" ";
    for (auto& x : caud) c += "\"" + x + "\" ";
    return "system time " + std::to_string(VClock::ns.load()) + " ns, now=" + std::to_string(now) + " skew=" + std::to_string(skew) + " nbf=" + std::to_string(nbf) + " exp=" + std::to_string(exp) +
           " token aud: " + a + " audiences: " + c + (sigOk ? " signature valid" : " signature invalid") + "\ntoken: " + text + "\n" + docs;
  };
  // abseil may interpolate the system's clock: what it says right before and
  // after a call must be the virtual second, or the call is not judged.
  auto settled = [&] { return absl::ToUnixSeconds(absl::Now()) == sysSec; };
  auto check = [&](const char* name, Status got, const std::set<Status>& tf, bool aud, bool clock = true) {
    if (strncmp(name, "system", 6) == 0 && (!clock || !settled())) { r.count("clock_not_settled"); return; }
    std::set<Status> f = sigFails;
    f.insert(tf.begin(), tf.end());
    if (aud && !audOk) f.insert(Status::JwtAudienceNotAllowed);
    int combo = (sigOk ? 0 : 1) | (tf.empty() ? 0 : 2) | (aud && !audOk ? 4 : 0);
    r.count(std::string(name) + ":failing=" + std::to_string(combo));
    r.eval(fnv(name, strlen(name), fnv(text, fnv(std::to_string(now) + "/" + std::to_string(skew) + "/" + std::to_string(VClock::ns.load())))), true);
    if (f.empty() ? got != Status::Ok : !f.count(got)) {
      std::string want;
      for (auto x : f) want += statusName(x) + " ";
      r.fail(std::string("C09/") + name, std::string(name) + " gives " + statusName(got) + ", want " + (f.empty() ? "Ok" : "one of " + want), in());
    }
  };
  uint64_t sys = static_cast<uint64_t>(sysSec);
  // in random order, each twice in a row now and then: no call may leave anything behind
  std::vector<int> order = {0, 1, 2, 3, 4, 5};
  g.shuffle(order);
  if (g.chance(1, 3)) order.insert(order.end(), order.begin(), order.end());
  VClock::on = true;
  for (int o : order) switch (o) {
    case 0: check("withoutTimeChecking", verifyJwtWithoutTimeChecking(j, *keys), {}, false); break;
    case 1: { bool c = settled(); check("systemTime", verifyJwt(j, *keys), timeFails(sys, 60, nbf, exp), false, c); break; }
    case 2: check("givenTime", verifyJwt(j, *keys, now), timeFails(now, 60, nbf, exp), false); break;
    case 3: check("givenTimeAndSkew", verifyJwt(j, *keys, now, skew), timeFails(now, skew, nbf, exp), false); break;
    case 4: { bool c = settled(); check("systemTimeAndAudiences", verifyJwt(j, *keys, caud), timeFails(sys, 60, nbf, exp), true, c); break; }
    case 5: check("givenTimeAndAudiences", verifyJwt(j, *keys, caud, now), timeFails(now, 60, nbf, exp), true); break;
  }
  VClock::on = false;
  if (r.samples.size() < 3 && g.chance(1, 50)) r.sample(in());
}
}  // namespace

int main(int argc, char** argv) {
  return runMain(argc, argv,
                 [] {
                   const char* d = getenv("VERIF_KEYS");
                   pool().load(d ? d : "/verif/keys", R().seed, true);
                   VClock::ns = 1234567890LL * 1000000000;
                   VClock::on = true;
                   if (absl::ToUnixSeconds(absl::Now()) != 1234567890) R().harnessError("the virtual clock is not seen by abseil");
                   VClock::on = false;
                 },
                 one);
}
