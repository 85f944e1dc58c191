// C10 JWKS import, C11 PEM and x509 import.
#include "gen.h"

using namespace vh;

namespace {
std::string rsaN(const RSA* r) { const BIGNUM *n, *e; RSA_get0_key(r, &n, &e, nullptr); return n ? bnStr(n) : ""; }
std::string rsaE(const RSA* r) { const BIGNUM *n, *e; RSA_get0_key(r, &n, &e, nullptr); return e ? bnStr(e) : ""; }
std::string ecPoint(const EC_KEY* k) {
  bssl::UniquePtr<BIGNUM> x(BN_new()), y(BN_new());
  const EC_POINT* p = EC_KEY_get0_public_key(k);
  if (!p) return "no point";
  if (!EC_POINT_get_affine_coordinates_GFp(EC_KEY_get0_group(k), p, x.get(), y.get(), nullptr)) { ERR_clear_error(); return "infinity"; }
  return std::string(crvName(EC_GROUP_get_curve_name(EC_KEY_get0_group(k)))) + hex(bnStr(x.get())) + "/" + hex(bnStr(y.get()));
}

// What a key is, in comparable form.
struct KD {
  std::string kty, kid, alg, crv, mat;
  bool operator==(const KD& o) const { return kty == o.kty && kid == o.kid && alg == o.alg && crv == o.crv && mat == o.mat; }
  std::string str() const { return "{kty=" + kty + " kid=" + kid + " alg=" + alg + " crv=" + crv + " mat=" + mat.substr(0, 80) + "}"; }
};
std::string strip0(std::string s) { size_t i = 0; while (i < s.size() && s[i] == 0) i++; return s.substr(i); }
// All the key material the object holds, whatever its type says.
std::string material(const Jwks::Pubkey& p) {
  std::string m;
  if (p.rsa_) m += "rsa:" + hex(rsaN(p.rsa_.get())) + "," + hex(rsaE(p.rsa_.get())) + ";";
  if (p.ec_key_) m += "ec:" + ecPoint(p.ec_key_.get()) + ";";
  if (!p.hmac_key_.empty()) m += "oct:" + hex(p.hmac_key_) + ";";
  if (!p.okp_key_raw_.empty()) m += "okp:" + hex(p.okp_key_raw_) + ";";
  return m;
}
KD of(const Jwks::Pubkey& p, bool crv) { return {p.kty_, p.kid_, p.alg_, crv ? p.crv_ : "", material(p)}; }
std::string matOf(const Key& k) {
  switch (k.t) {
    case KT::RSA: return "rsa:" + hex(strip0(k.n)) + "," + hex(strip0(k.e)) + ";";
    case KT::EC: return std::string("ec:") + crvName(k.nid) + hex(strip0(k.x)) + "/" + hex(strip0(k.y)) + ";";
    case KT::OCT: return "oct:" + hex(k.secret) + ";";
    default: return "okp:" + hex(k.x) + ";";
  }
}
std::string list(const std::vector<KD>& v) { std::string r; for (auto& k : v) r += k.str() + " "; return "[" + r + "]"; }

// ---- C10 ------------------------------------------------------------------
struct Verdict {
  bool object = true, ok = false, open = false, otherLength = false;
  KD key;
  std::set<Status> defects;
};

// Classifies one entry of "keys".
Verdict classify(const PbValue& v) {
  Verdict r;
  if (v.kind_case() != PbValue::kStructValue) { r.object = false; return r; }
  const PbStruct& s = v.struct_value();
  auto bad = [&](Status st) { r.defects.insert(st); };
  const PbValue* t = member(s, "kty");
  if (!t) { bad(Status::JwksMissingKty); return r; }
  if (t->kind_case() != PbValue::kStringValue) { bad(Status::JwksBadKty); return r; }
  r.key.kty = t->string_value();
  auto opt = [&](const char* n, std::string* o) {
    const PbValue* x = member(s, n);
    if (x && x->kind_case() == PbValue::kStringValue) *o = x->string_value();
    else if (x) r.open = true;  // kid or alg of another type: left open
  };
  opt("kid", &r.key.kid);
  opt("alg", &r.key.alg);
  auto str = [&](const char* n, std::string* o, Status missing, Status wrong) {
    const PbValue* x = member(s, n);
    if (!x) { bad(missing); return false; }
    if (x->kind_case() != PbValue::kStringValue) { bad(wrong); return false; }
    *o = x->string_value();
    return true;
  };
  auto dec = [&](const std::string& in, std::string* o, Status st) {
    B64 k = unb64(in, o);
    if (k == B64::BAD) { bad(st); return false; }
    if (k == B64::LENIENT) r.open = true;
    return true;
  };
  const std::string& alg = r.key.alg;
  if (r.key.kty == "RSA") {
    if (!alg.empty() && alg.substr(0, 2) != "RS" && alg.substr(0, 2) != "PS") bad(Status::JwksRSAKeyBadAlg);
    std::string n, e, nd, ed;
    bool a = str("n", &n, Status::JwksRSAKeyMissingN, Status::JwksRSAKeyBadN);
    bool b = str("e", &e, Status::JwksRSAKeyMissingE, Status::JwksRSAKeyBadE);
    if (a) a = dec(n, &nd, Status::JwksRsaParseError);
    if (b) b = dec(e, &ed, Status::JwksRsaParseError);
    if (a && b) {
      ed = strip0(ed);
      bssl::UniquePtr<RSA> rsa(RSA_new());
      bssl::UniquePtr<BIGNUM> bn(BN_bin2bn(u8(nd), nd.size(), nullptr)), be(BN_bin2bn(u8(ed), ed.size(), nullptr));
      bool std_e = ed == "\x03" || ed == "\x01" + std::string(1, 0) + "\x01";
      bool fine = RSA_set0_key(rsa.get(), bn.get(), be.get(), nullptr);
      if (fine) { bn.release(); be.release(); fine = RSA_check_key(rsa.get()); }
      ERR_clear_error();
      if (!fine) bad(Status::JwksRsaParseError);
      else if (!std_e) { r.open = true; r.defects.insert(Status::JwksRsaParseError); }
      r.key.mat = "rsa:" + hex(strip0(nd)) + "," + hex(ed) + ";";
    }
    r.key.crv = "";
  } else if (r.key.kty == "EC") {
    std::string crv;
    bool hasCrv = member(s, "crv") != nullptr;
    if (hasCrv) {
      if (member(s, "crv")->kind_case() != PbValue::kStringValue) bad(Status::JwksECKeyBadCrv);
      else crv = member(s, "crv")->string_value();
    }
    if (!alg.empty() && alg.substr(0, 2) != "ES") bad(Status::JwksECKeyBadAlg);
    std::string byAlg = alg == "ES256" ? "P-256" : alg == "ES384" ? "P-384" : alg == "ES512" ? "P-521" : "";
    bool known = crv == "P-256" || crv == "P-384" || crv == "P-521";
    std::string c;
    if (alg.empty() && crv.empty()) c = "P-256";
    else if (alg.empty()) { if (known) c = crv; else bad(Status::JwksECKeyAlgOrCrvUnsupported); }
    else if (crv.empty()) { if (!byAlg.empty()) c = byAlg; else bad(Status::JwksECKeyAlgOrCrvUnsupported); }
    else if (byAlg == crv && known) c = crv;
    else { bad(Status::JwksECKeyAlgNotCompatibleWithCrv); if (byAlg.empty() || !known) bad(Status::JwksECKeyAlgOrCrvUnsupported); }
    std::string x, y, xd, yd;
    bool a = str("x", &x, Status::JwksECKeyMissingX, Status::JwksECKeyBadX);
    bool b = str("y", &y, Status::JwksECKeyMissingY, Status::JwksECKeyBadY);
    if (a) a = dec(x, &xd, Status::JwksEcXorYBadBase64);
    if (b) b = dec(y, &yd, Status::JwksEcXorYBadBase64);
    if (a && b && !c.empty()) {
      int nid = c == "P-256" ? NID_X9_62_prime256v1 : c == "P-384" ? NID_secp384r1 : NID_secp521r1;
      bssl::UniquePtr<EC_KEY> k(EC_KEY_new_by_curve_name(nid));
      bssl::UniquePtr<BIGNUM> bx(BN_bin2bn(u8(xd), xd.size(), nullptr)), by(BN_bin2bn(u8(yd), yd.size(), nullptr));
      if (!EC_KEY_set_public_key_affine_coordinates(k.get(), bx.get(), by.get())) {
        bad(Status::JwksEcParseError);
        if (x.empty() || y.empty()) bad(Status::JwksEcXorYBadBase64);
      } else if (x.empty() || y.empty()) r.open = true;
      else if (xd.size() != ecLen(nid) || yd.size() != ecLen(nid)) r.otherLength = true;
      ERR_clear_error();
      r.key.mat = "ec:" + c + hex(strip0(xd)) + "/" + hex(strip0(yd)) + ";";
    }
    r.key.crv = c;
  } else if (r.key.kty == "oct") {
    if (!alg.empty() && alg != "HS256" && alg != "HS384" && alg != "HS512") bad(Status::JwksHMACKeyBadAlg);
    std::string k, kd;
    if (str("k", &k, Status::JwksHMACKeyMissingK, Status::JwksHMACKeyBadK) && dec(k, &kd, Status::JwksOctBadBase64) && kd.empty()) bad(Status::JwksOctBadBase64);
    r.key.mat = "oct:" + hex(kd) + ";";
    r.key.crv = "";
  } else if (r.key.kty == "OKP") {
    if (!alg.empty() && alg != "EdDSA") bad(Status::JwksOKPKeyBadAlg);
    std::string crv, x, xd;
    if (str("crv", &crv, Status::JwksOKPKeyMissingCrv, Status::JwksOKPKeyBadCrv) && crv != "Ed25519") bad(Status::JwksOKPKeyCrvUnsupported);
    if (str("x", &x, Status::JwksOKPKeyMissingX, Status::JwksOKPKeyBadX) && dec(x, &xd, Status::JwksOKPXBadBase64) && xd.size() != 32) bad(Status::JwksOKPXWrongLength);
    r.key.mat = "okp:" + hex(xd) + ";";
    r.key.crv = "Ed25519";
  } else {
    bad(Status::JwksNotImplementedKty);
  }
  r.ok = r.defects.empty();
  return r;
}

void evalJwks(Run& r) {
  Rng g = r.caseRng();
  std::string text = genJwksDoc(g);
  JwksPtr set = Jwks::createFrom(text, Jwks::JWKS);
  // Oracle.
  PbStruct pb;
  std::vector<KD> want;
  std::set<Status> st;
  bool open = false;
  if (!parseJson(text, &pb)) st = {Status::JwksParseError};
  else {
    const PbValue* keys = member(pb, "keys");
    if (!keys) {
      st = {Status::JwksNoKeys};
      // an x509 map is C11's business
      bool x = !pb.fields().empty();
      for (auto& kv : pb.fields()) if (kv.second.kind_case() != PbValue::kStringValue) x = false;
      if (x) { r.count("x509_like"); return; }
    } else if (keys->kind_case() != PbValue::kListValue) st = {Status::JwksBadKeys};
    else {
      const std::set<Status>* first = nullptr;
      bool nonObjectFirst = false;
      std::vector<Verdict> vs;
      for (auto& v : keys->list_value().values()) vs.push_back(classify(v));
      for (auto& v : vs) {
        if (!v.object) { if (!first) nonObjectFirst = true; r.count("entry:not-object"); continue; }
        if (v.open) open = true;
        if (v.otherLength) r.count("entry:ec-other-length");
        if (v.ok) { want.push_back(v.key); r.count("entry:ok:" + v.key.kty); }
        else {
          for (auto d : v.defects) r.count("defect:" + std::to_string(static_cast<int>(d)));
          if (!first) first = &v.defects;
        }
      }
      if (!want.empty()) st = {Status::Ok};
      else if (!first) st = {Status::JwksNoValidKeys};
      else { st = *first; if (nonObjectFirst) st.insert(Status::JwksNoValidKeys); }
    }
  }
  r.eval(fnv(text), !text.empty());
  if (open) { r.count("open"); return; }
  std::vector<KD> got;
  for (auto& k : set->keys()) got.push_back(of(*k, true));
  r.count("status:" + std::to_string(static_cast<int>(set->getStatus())));
  std::string in = "document: " + text;
  if (r.samples.size() < 3 && g.chance(1, 20)) r.sample(in + " -> " + statusName(set->getStatus()) + " " + std::to_string(got.size()) + " keys");
  if (got.size() != want.size()) r.fail("C10/number", std::to_string(got.size()) + " keys, want " + std::to_string(want.size()) + "\ngot " + list(got) + "\nwant " + list(want), in);
  else for (size_t i = 0; i < got.size(); i++) {
    const char* f = got[i].kty != want[i].kty ? "kty" : got[i].kid != want[i].kid ? "kid" : got[i].alg != want[i].alg ? "alg" : got[i].crv != want[i].crv ? "crv" : got[i].mat != want[i].mat ? "material" : "";
    if (*f) r.fail(std::string("C10/key/") + f, std::string(f) + " of key " + std::to_string(i) + " differs\ngot " + list(got) + "\nwant " + list(want), in);
  }
  if (!st.count(set->getStatus())) {
    std::string w;
    for (auto x : st) w += statusName(x) + " ";
    r.fail("C10/status/" + std::to_string(static_cast<int>(set->getStatus())), "status " + statusName(set->getStatus()) + ", want one of " + w, in);
  }
  if (ERR_peek_error()) ERR_clear_error();
}

// ---- C11 ------------------------------------------------------------------
// What a PEM text holds: kty "" if it must be refused.
KD pemOracle(const std::string& pem) {
  KD d;
  bssl::UniquePtr<BIO> b(BIO_new_mem_buf(pem.data(), pem.size()));
  bssl::UniquePtr<EVP_PKEY> k(PEM_read_bio_PUBKEY(b.get(), nullptr, nullptr, nullptr));
  if (k) switch (EVP_PKEY_id(k.get())) {
    case EVP_PKEY_RSA: d.kty = "RSA"; d.mat = "rsa:" + hex(rsaN(EVP_PKEY_get0_RSA(k.get()))) + "," + hex(rsaE(EVP_PKEY_get0_RSA(k.get()))) + ";"; break;
    case EVP_PKEY_EC: d.kty = "EC"; d.mat = "ec:" + ecPoint(EVP_PKEY_get0_EC_KEY(k.get())) + ";"; break;
    case EVP_PKEY_ED25519: {
      uint8_t raw[32]; size_t n = 32;
      if (EVP_PKEY_get_raw_public_key(k.get(), raw, &n)) { d.kty = "OKP"; d.mat = "okp:" + hex(std::string(reinterpret_cast<char*>(raw), n)) + ";"; }
      break;
    }
  }
  ERR_clear_error();
  return d;
}

std::string randName(Rng& g) { return g.chance(1, 4) ? "" : g.chance(1, 2) ? g.pick(allAlgs()) : genStr(g, 10); }

// The keys of a set, compared with what they must be. OKP keys must say
// Ed25519, unless the caller gave an alg of another type.
bool compareKeys(Run& r, const Jwks& set, const std::vector<KD>& want, const char* what, const std::string& in) {
  std::vector<KD> got;
  for (auto& k : set.keys()) {
    got.push_back(of(*k, false));
    if (k->kty_ == "OKP" && (k->alg_.empty() || k->alg_ == "EdDSA") && k->crv_ != "Ed25519") { r.fail(std::string("C11/") + what + "/crv", "an Ed25519 key with curve \"" + k->crv_ + "\"", in); return false; }
  }
  if (got.size() != want.size()) { r.fail(std::string("C11/") + what + "/number", std::to_string(got.size()) + " keys, want " + std::to_string(want.size()) + "\ngot " + list(got) + "\nwant " + list(want), in); return false; }
  for (size_t i = 0; i < got.size(); i++) {
    const char* f = got[i].kty != want[i].kty ? "kty" : got[i].kid != want[i].kid ? "kid" : got[i].alg != want[i].alg ? "alg" : got[i].mat != want[i].mat ? "material" : "";
    if (*f) { r.fail(std::string("C11/") + what + "/" + f, std::string(f) + " of key " + std::to_string(i) + " differs\ngot " + list(got) + "\nwant " + list(want), in); return false; }
  }
  return true;
}

void evalX509(Run& r, Rng& g) {
  std::string text = genX509Doc(g);
  PbStruct pb;
  if (!parseJson(text, &pb)) r.harnessError("x509 document is not JSON: " + text);
  // Oracle.
  bool form = !pb.fields().empty();
  bool ok = true, ambiguous = false;
  std::set<Status> st;
  std::map<std::string, KD> want;
  for (auto& kv : pb.fields()) {
    bool f = !kv.first.empty() && kv.second.kind_case() == PbValue::kStringValue;
    std::string c = f ? kv.second.string_value() : "";
    std::string pre = kCertPre, suf = kCertSuf;
    if (f) f = c.size() >= pre.size() && c.compare(0, pre.size(), pre) == 0 && c.size() >= suf.size() && c.compare(c.size() - suf.size(), suf.size(), suf) == 0;
    if (!f) { form = false; continue; }
    bssl::UniquePtr<BIO> b(BIO_new_mem_buf(c.data(), c.size()));
    bssl::UniquePtr<X509> x(PEM_read_bio_X509(b.get(), nullptr, nullptr, nullptr));
    KD d;
    d.kty = "RSA"; d.kid = kv.first;
    if (!x) { ok = false; st.insert(Status::JwksX509ParseError); st.insert(Status::JwksX509BioWriteError); }
    else {
      bssl::UniquePtr<EVP_PKEY> k(X509_get_pubkey(x.get()));
      if (!k || EVP_PKEY_id(k.get()) != EVP_PKEY_RSA) { ok = false; st.insert(Status::JwksX509GetPubkeyError); }
      else d.mat = "rsa:" + hex(rsaN(EVP_PKEY_get0_RSA(k.get()))) + "," + hex(rsaE(EVP_PKEY_get0_RSA(k.get()))) + ";";
    }
    ERR_clear_error();
    want[kv.first] = d;
  }
  if (!form) { ok = false; st.insert(Status::JwksNoKeys); }
  (void)ambiguous;
  JwksPtr set = Jwks::createFrom(text, Jwks::JWKS);
  r.eval(fnv(text), form);
  r.count(ok ? "x509:good" : form ? "x509:bad-cert" : "x509:bad-form");
  std::string in = "document: " + text;
  if (r.samples.size() < 2 && g.chance(1, 20)) r.sample(in + " -> " + statusName(set->getStatus()));
  if (!ok) {
    if (set->getStatus() == Status::Ok) r.fail("C11/x509/accepted", "bad x509 input gives status Ok", in);
    else if (!st.count(set->getStatus())) { std::string w; for (auto x : st) w += statusName(x) + " "; r.fail("C11/x509/status", "status " + statusName(set->getStatus()) + ", want one of " + w, in); }
    if (!set->keys().empty()) r.fail("C11/x509/keys", "bad x509 input yields " + std::to_string(set->keys().size()) + " keys", in);
    return;
  }
  if (set->getStatus() != Status::Ok) { r.fail("C11/x509/refused", "status " + statusName(set->getStatus()) + " for good certificates", in); return; }
  std::map<std::string, KD> got;
  for (auto& k : set->keys()) {
    KD d = of(*k, false);
    if (!got.insert({k->kid_, d}).second) r.fail("C11/x509/twice", "two keys with kid " + k->kid_, in);
  }
  if (got.size() != want.size()) r.fail("C11/x509/number", std::to_string(got.size()) + " keys, want " + std::to_string(want.size()), in);
  for (auto& w : want) if (!got.count(w.first) || !(got[w.first] == w.second)) r.fail("C11/x509/key", "key " + w.first + " is " + (got.count(w.first) ? got[w.first].str() : "missing") + ", want " + w.second.str(), in);
}

void evalPem(Run& r) {
  Rng g = r.caseRng();
  if (g.chance(1, 4)) { evalX509(r, g); return; }
  std::string what, trace;
  std::string pem = genPem(g, &what);
  KD d = pemOracle(pem);
  auto st = [&](const KD& o, Status s, const std::string& p, const char* how, const std::string& in) {
    if (o.kty.empty() ? s == Status::Ok : s != Status::Ok) r.fail(std::string("C11/") + how + "/status", std::string(o.kty.empty() ? "bad PEM gives " : "good PEM gives ") + statusName(s), in);
    if (o.kty.empty() && s != Status::Ok) {
      std::set<Status> adm = {Status::JwksPemBadBase64, Status::JwksPemNotImplementedKty, Status::JwksPemGetRawEd25519Error};
      if (!adm.count(s)) r.fail(std::string("C11/") + how + "/diagnosis", "bad PEM gives " + statusName(s), in);
    }
  };
  trace = "PEM (" + what + "): " + pem + "\nhex: " + hex(pem, 1500) + "\n";
  JwksPtr set;
  std::vector<KD> want;
  int base = static_cast<int>(g.below(4));
  if (base == 0) {
    set = Jwks::createFrom(pem, Jwks::PEM);
    st(d, set->getStatus(), pem, "createFrom", trace);
    if (!d.kty.empty()) want.push_back(d);
  } else if (base < 3) {
    std::string kid = randName(g), alg = randName(g);
    trace += "kid=" + kid + " alg=" + alg + "\n";
    set = Jwks::createFromPem(pem, kid, alg);
    st(d, set->getStatus(), pem, "createFromPem", trace);
    if (!d.kty.empty()) { d.kid = kid; d.alg = alg; want.push_back(d); }
  } else {
    std::vector<SetKey> v;
    for (int n = static_cast<int>(g.below(3)); n--;) { SetKey s; s.k = g.pick(pool().good); s.hasKid = true; s.kid = genStr(g, 6); legalize(s, g); s.route = Route::JWKS; if (s.k->t == KT::EC) s.crv = true; v.push_back(s); }
    set = buildSet(v, nullptr, &trace);
    for (auto& k : set->keys()) want.push_back(of(*k, false));
  }
  r.count(d.kty.empty() ? "pem:bad" : "pem:" + d.kty);
  if (!compareKeys(r, *set, want, base == 0 ? "createFrom" : "createFromPem", trace)) return;
  uint64_t fp = fnv(pem, base);
  // additions
  for (int n = static_cast<int>(g.chance(1, 500) ? 1 + (g.chance(1, 2) ? dictInt(g, 1100) : g.below(300)) : g.below(5)); n--;) {
    std::string w2;
    std::string p2 = g.chance(1, 6) ? pem : genPem(g, &w2);
    KD o = pemOracle(p2);
    o.kid = randName(g);
    o.alg = randName(g);
    trace += "add (" + w2 + ") kid=" + o.kid + " alg=" + o.alg + "\n" + p2;
    Status before = set->getStatus();
    std::vector<const void*> ptrs;
    for (auto& k : set->keys()) ptrs.push_back(k.get());
    Status s = set->addKeyFromPem(p2, o.kid, o.alg);
    st(o, s, p2, "addKeyFromPem", trace);
    if (o.kty.empty() && set->getStatus() != before) r.fail("C11/add/set-status", "a failed addition changed the set's status", trace);
    if (!o.kty.empty()) want.push_back(o);
    r.count(o.kty.empty() ? "add:bad" : "add:good");
    if ((want.size() < 20 || n < 2 || g.chance(1, 50)) && !compareKeys(r, *set, want, "addKeyFromPem", trace)) return;
    fp = fnv(p2, fp);
  }
  r.eval(fp, true);
  if (r.samples.size() < 3 && g.chance(1, 30)) r.sample(trace);
}
}  // namespace

int main(int argc, char** argv) {
  return runMain(argc, argv,
                 [] {
                   const char* d = getenv("VERIF_KEYS");
                   pool().load(d ? d : "/verif/keys", R().seed);
                 },
                 [](Run& r) { r.prop == "C10" ? evalJwks(r) : evalPem(r); });
}
