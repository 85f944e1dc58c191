// C04 parse exactness, C05 diagnosis of rejected tokens, C06 state isolation
// of token objects.
#include "gen.h"

using namespace vh;
using google::jwt_verify::verifyJwtWithoutTimeChecking;

namespace {
std::string in(const T& t) { return "what:" + t.what + "\ntoken: " + t.text + "\nhex: " + hex(t.text, 2000); }

void evalParse(Run& r) {
  Rng g = r.caseRng();
  int nd = 0;
  bool mut = false;
  if (r.prop == "C05") { nd = g.chance(1, 2) ? 1 : g.range(1, 4); mut = g.chance(1, 8); }
  else {
    int w = static_cast<int>(g.below(10));
    if (w >= 5) nd = w >= 8 ? 0 : 1;
    mut = w >= 8;
  }
  T t = genToken(g, nd);
  if (mut) mutateText(g, t);
  if (g.chance(1, 400)) { t.p.set("big", J::str(std::string(g.below(1 << 19), 'x'))); t.text = b64(render(t.h)) + "." + b64(render(t.p)) + "." + b64(t.sig); }
  Parsed p = oracleParse(t.text);
  if (nd == 0 && !mut && !p.mustAccept()) r.harnessError("oracle rejects a generated token: " + t.text);
  Jwt j;
  Status st = j.parseFromString(t.text);
  r.count("status:" + std::to_string(static_cast<int>(st)));
  r.eval(fnv(t.text), r.prop == "C04" || p.mustReject());
  if (r.samples.size() < 3 && g.chance(1, 20)) r.sample(in(t) + " -> " + statusName(st));
  for (auto d : p.defects) r.count("defect:" + std::to_string(static_cast<int>(d)));
  if (r.prop == "C04") {
    r.count(p.mustAccept() ? "oracle:accept" : p.mustReject() ? "oracle:reject" : "oracle:open");
    if (p.mustAccept() && st != Status::Ok) r.fail("C04/rejected/" + std::to_string(static_cast<int>(st)), "well-formed token rejected with " + statusName(st), in(t));
    if (p.mustReject() && st == Status::Ok) r.fail("C04/accepted/" + std::to_string(static_cast<int>(*p.defects.begin())), "accepted, but has the defect " + statusName(*p.defects.begin()), in(t));
    if (!p.mustReject() && st == Status::Ok) {
      std::string d = diffFields(j, p, t.text);
      if (!d.empty()) r.fail("C04/field/" + d, "field " + d + " is not what the token encodes", in(t));
      if (t.astOk) {
        PbStruct h, q;
        if (toPb(t.h, &h) && toPb(t.p, &q)) {
          r.count("ast_compared");
          if (!pbEqual(h, j.header_pb_)) r.fail("C04/ast/header_pb_", "header object is not the one encoded", in(t));
          if (!pbEqual(q, j.payload_pb_)) r.fail("C04/ast/payload_pb_", "payload object is not the one encoded", in(t));
        }
      }
    }
  } else if (st != Status::Ok) {
    if (!p.defects.count(st) && !p.lenientDefects.count(st)) {
      std::string w;
      for (auto d : p.defects) w += " " + statusName(d);
      r.fail("C05/" + std::to_string(static_cast<int>(st)), "status " + statusName(st) + ", but the defects present are:" + (w.empty() ? " none" : w), in(t));
    }
  } else if (p.mustReject()) {
    r.count("accepted_though_defective");  // C04's business
  }
}

// ---- C06 ------------------------------------------------------------------
struct TokPool {
  std::vector<std::string> texts;
};

std::string signedToken(Rng& g, bool bare) {
  std::vector<const Key*> ks = pool().oct;
  std::string alg;
  const Key* k;
  if (g.chance(3, 4)) { k = g.pick(ks); alg = "HS" + std::to_string(128 * g.range(2, 4)); }
  else if (g.chance(1, 2)) { k = g.pick(pool().okp); alg = "EdDSA"; }
  else { k = pool().byName("ec_prime256v1_1"); alg = "ES256"; }
  J h = genHeader(g, alg);
  if (g.chance(1, 2)) h.set("kid", J::str(genStr(g, 6)));
  J p = bare ? J::obj() : genPayload(g);
  std::string d = b64(render(h)) + "." + b64(render(p));
  return d + "." + b64(sign(alg, *k, d));
}

JwksPtr everyKey() {
  std::vector<SetKey> v;
  for (auto* k : pool().oct) { SetKey s; s.k = k; v.push_back(s); }
  for (auto* k : pool().okp) { SetKey s; s.k = k; v.push_back(s); }
  SetKey s; s.k = pool().byName("ec_prime256v1_1"); v.push_back(s);
  return buildSet(v, nullptr);
}

void evalHistory(Run& r) {
  static JwksPtr keys = everyKey();
  Rng g = r.caseRng();
  std::vector<std::string> texts;
  int nt = g.range(3, 7);
  for (int i = 0; i < nt; i++) {
    switch (g.below(6)) {
      case 0: case 1: texts.push_back(signedToken(g, g.chance(1, 3))); break;
      case 2: texts.push_back(genToken(g, 1).text); break;
      case 3: texts.push_back(genToken(g, 0).text); break;
      case 4: {  // an earlier text, damaged
        if (texts.empty()) { texts.push_back(""); break; }
        std::string s = g.pick(texts);
        switch (g.below(6)) {
          case 0: s = s.substr(0, s.rfind('.') == std::string::npos ? 0 : s.rfind('.')); break;
          case 1: s = s.substr(0, s.rfind('.') + 1); break;
          case 2: s += "+"; break;
          case 3: s = s.substr(0, s.find('.') + 1); break;
          case 4: { size_t d = s.find('.'); if (d != std::string::npos) s.insert(d + 1, "!"); break; }
          default: { T t; t.text = s; mutateText(g, t); s = t.text; break; }
        }
        texts.push_back(s);
        break;
      }
      default: texts.push_back(g.chance(1, 2) ? "" : "a.b.c"); break;
    }
  }
  std::vector<std::unique_ptr<Jwt>> obj;
  std::vector<std::string> tracked;
  std::string trace;
  auto fresh = [&](const std::string& s, Jwt* j) { return j->parseFromString(s); };
  for (int i = 0; i < 3; i++) {
    std::unique_ptr<Jwt> j(new Jwt());
    std::string s = g.pick(texts);
    j->parseFromString(s);
    obj.push_back(std::move(j));
    tracked.push_back(s);
    trace += "new #" + std::to_string(i) + " " + s + "\n";
  }
  int ops = g.range(4, 14);
  uint64_t fp = 1;
  for (int o = 0; o < ops; o++) {
    int a = static_cast<int>(g.below(3)), b = static_cast<int>(g.below(3));
    Status got = Status::Ok;
    bool haveStatus = false;
    std::string expectText;
    int op = static_cast<int>(g.below(11));
    std::string desc;
    switch (op) {
      case 0: case 1: case 2: {
        expectText = g.pick(texts);
        got = obj[a]->parseFromString(expectText);
        haveStatus = true;
        desc = "parse #" + std::to_string(a) + " " + expectText;
        break;
      }
      case 3: {  // text that is part of an object, often of the same one
        if (g.chance(2, 3)) b = a;
        Jwt& s = *obj[b];
        std::vector<std::pair<const char*, const std::string*>> m = {{"jwt_", &s.jwt_}, {"jwt_", &s.jwt_}, {"payload_str_", &s.payload_str_}, {"header_str_", &s.header_str_},
                                                                    {"header_str_base64url_", &s.header_str_base64url_}, {"payload_str_base64url_", &s.payload_str_base64url_},
                                                                    {"signature_", &s.signature_}, {"kid_", &s.kid_}, {"iss_", &s.iss_}, {"sub_", &s.sub_}, {"jti_", &s.jti_}, {"alg_", &s.alg_}};
        for (auto& x : s.audiences_) m.push_back({"audiences_", &x});
        auto pr = m[g.below(m.size())];
        expectText = *pr.second;
        got = obj[a]->parseFromString(*pr.second);
        haveStatus = true;
        desc = "parse #" + std::to_string(a) + " from " + pr.first + " of #" + std::to_string(b);
        break;
      }
      case 4: case 5:
        expectText = tracked[b];
        *obj[a] = *obj[b];
        desc = "assign #" + std::to_string(a) + " = #" + std::to_string(b);
        break;
      case 6:
        expectText = tracked[b];
        a = static_cast<int>(g.below(3));
        { std::unique_ptr<Jwt> c(new Jwt(*obj[b])); obj[a] = std::move(c); }
        desc = "copy #" + std::to_string(a) + " of #" + std::to_string(b);
        break;
      case 7:
        b = a;
        expectText = tracked[a];
        *obj[a] = *obj[a];
        desc = "self-assign #" + std::to_string(a);
        break;
      case 8: {  // from a temporary, or moved; what is moved from is parsed into again
        expectText = tracked[b];
        int w = static_cast<int>(g.below(4));
        if (a == b) w = 0;
        if (w == 0) *obj[a] = Jwt(*obj[b]);
        else if (w == 1) { std::string s = g.pick(texts); Jwt tmp; tmp.parseFromString(s); *obj[a] = std::move(tmp); expectText = s; }
        else {
          if (w == 2) *obj[a] = std::move(*obj[b]);
          else obj[a].reset(new Jwt(std::move(*obj[b])));
          std::string s = g.pick(texts);
          obj[b]->parseFromString(s);
          tracked[b] = s;
        }
        desc = "move " + std::to_string(w) + " #" + std::to_string(a) + " = #" + std::to_string(b) + " (now " + tracked[b] + ") <- " + expectText;
        break;
      }
      case 9: {  // objects in a vector that grows
        std::vector<Jwt> v;
        int n = g.range(1, 5);
        for (int i = 0; i < n; i++) { v.emplace_back(); v.back().parseFromString(g.pick(texts)); }
        v.emplace_back(*obj[b]);
        size_t at = v.size() - 1;
        for (int i = 0; i < n; i++) v.emplace_back();
        if (g.chance(1, 2)) { v.erase(v.begin()); at--; }
        expectText = tracked[b];
        if (g.chance(1, 2)) *obj[a] = v[at]; else *obj[a] = std::move(v[at]);
        desc = "through a vector #" + std::to_string(a) + " = #" + std::to_string(b);
        break;
      }
      default: {  // a nested token: the payload of a token carries a whole token
        std::string innerTok = g.pick(texts);
        J p = genPayload(g);
        bool pure = true;
        for (char c : innerTok) pure &= static_cast<unsigned char>(c) < 0x80;
        if (!pure) innerTok = "x.y.z";
        int w = static_cast<int>(g.below(3));
        const char* f[] = {"iss", "sub", "aud"};
        if (w == 2) p.set("aud", J::list({J::str("z"), J::str(innerTok)}));
        else p.set(f[w], J::str(innerTok));
        std::string d = b64(render(genHeader(g, "HS256"))) + "." + b64(render(p));
        std::string outer = d + "." + b64(signHmac(pool().oct[0]->secret, 256, d));
        Status s1 = obj[a]->parseFromString(outer);
        if (s1 != Status::Ok) { r.fail("C06/nested", "well-formed token rejected in a reused object: " + statusName(s1), trace + outer); return; }
        expectText = innerTok;
        got = obj[a]->parseFromString(w == 0 ? obj[a]->iss_ : w == 1 ? obj[a]->sub_ : obj[a]->audiences_[1]);
        haveStatus = true;
        desc = "parse #" + std::to_string(a) + " nested in " + std::string(f[w]) + ": " + outer;
        r.count("nested");
      }
    }
    r.count("op:" + std::to_string(op));
    trace += desc + "\n";
    tracked[a] = expectText;
    fp = fnv(desc, fp);
    for (int i = 0; i < 3; i++) {
      if (i != a && !g.chance(1, 4)) continue;
      Jwt f;
      Status want = fresh(tracked[i], &f);
      std::string who = i == a ? "" : "(another object) ";
      if (i == a && haveStatus && got != want) r.fail("C06/status", "status " + statusName(got) + ", a fresh object gives " + statusName(want) + " after " + desc, trace);
      std::string d = diffJwt(*obj[i], f);
      if (!d.empty()) r.fail("C06/field/" + d, who + "field " + d + " differs from a fresh object's after " + desc, trace);
      Status v1 = verifyJwtWithoutTimeChecking(*obj[i], *keys), v2 = verifyJwtWithoutTimeChecking(f, *keys);
      if (v1 != v2) r.fail("C06/verdict", who + "verification gives " + statusName(v1) + ", with a fresh object " + statusName(v2) + " after " + desc, trace);
      if (want != Status::Ok && (v1 == Status::Ok || google::jwt_verify::verifyJwt(*obj[i], *keys, 1000) == Status::Ok)) r.fail("C06/accepted", "token object accepted by verification though its parse failed", trace);
      uint64_t now = g.u64() >> g.below(64);
      if (obj[i]->verifyTimeConstraint(now) != f.verifyTimeConstraint(now)) r.fail("C06/time", "time verdict differs from a fresh object's", trace);
      r.count(want == Status::Ok ? "state:parsed" : "state:failed");
      if (v1 == Status::Ok) r.count("state:verified");
    }
  }
  r.eval(fp);
  if (r.samples.size() < 3 && g.chance(1, 20)) r.sample(trace);
}
}  // namespace

int main(int argc, char** argv) {
  return runMain(argc, argv,
                 [] {
                   if (R().prop == "C06") {
                     const char* d = getenv("VERIF_KEYS");
                     pool().load(d ? d : "/verif/keys", R().seed, true);
                   }
                 },
                 [](Run& r) { r.prop == "C06" ? evalHistory(r) : evalParse(r); });
}
