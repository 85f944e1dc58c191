// Case framework shared by all harnesses: seeded random numbers per case,
// violation reports, counters, distinct-case fingerprints and a progress word
// that the driver watches.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ULL;
  return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) {
  uint64_t n = s.size();
  return fnv(s.data(), s.size(), fnv(&n, sizeof n, h));
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) {}
  uint64_t u64() { return splitmix(s); }
  // 0 .. n-1
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int range(int a, int b) { return a + static_cast<int>(below(b - a + 1)); }
  bool chance(int num, int den) { return below(den) < static_cast<uint64_t>(num); }
  template <class T>
  const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  std::string bytes(size_t n) {
    std::string r(n, 0);
    for (auto& c : r) c = static_cast<char>(u64());
    return r;
  }
  template <class T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
  }
};

inline bool validUtf8(const std::string& s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i++];
    int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
    if (n < 0) return false;
    uint32_t v = n ? c & (0x3f >> n) : c;
    for (int k = n; k--; v = v << 6 | (s[i++] & 0x3f)) if (i >= s.size() || (s[i] & 0xc0) != 0x80) return false;
    if ((n == 2 && (v < 0x800 || (v >= 0xd800 && v < 0xe000))) || (n == 3 && (v < 0x10000 || v > 0x10ffff))) return false;
  }
  return true;
}
// String and integer literals of the code under test, extracted by run.py:
// names, values, lengths and counts that its behaviour may depend on.
struct Dict {
  std::vector<std::string> strs;
  std::vector<uint64_t> ints;
  Dict() {
    const char* f = getenv("VERIF_DICT");
    FILE* i = f ? fopen(f, "r") : nullptr;
    if (!i) return;
    static char line[8192];
    while (fgets(line, sizeof line, i)) {
      if (line[0] == 'i') ints.push_back(strtoull(line + 2, nullptr, 10));
      if (line[0] == 's') {
        std::string r;
        for (const char* p = line + 2; p[0] > ' ' && p[1] > ' '; p += 2) {
          char h[3] = {p[0], p[1], 0};
          r += static_cast<char>(strtoul(h, nullptr, 16));
        }
        if (validUtf8(r)) strs.push_back(r);
      }
    }
    fclose(i);
  }
};
inline const Dict& dict() { static const Dict* d = new Dict; return *d; }
// A literal of the code, alone or with something around it.
inline std::string dictStr(Rng& g) {
  if (dict().strs.empty()) return "";
  std::string s = g.pick(dict().strs);
  switch (g.below(8)) {
    case 0: return s + static_cast<char>(0x20 + g.below(95));
    case 1: return static_cast<char>(0x20 + g.below(95)) + s;
    case 2: return s + g.pick(dict().strs);
    case 3: for (auto& c : s) c = static_cast<char>(c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c); return s;
    default: return s;
  }
}
// A number near a literal of the code or a power of two, up to `max`.
inline uint64_t dictInt(Rng& g, uint64_t max) {
  uint64_t v = g.chance(1, 2) || dict().ints.empty() ? 1ULL << g.below(64) : g.pick(dict().ints);
  v += g.below(3);
  v -= v ? 1 : 0;
  return v <= max ? v : g.below(max + 1);
}

inline std::string jsonEscape(const std::string& s) {
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

inline std::string hex(const std::string& s, size_t max = 4000) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s.substr(0, max)) { r += d[c >> 4]; r += d[c & 15]; }
  if (s.size() > max) r += "...";
  return r;
}

struct Run {
  std::string prop, tier = "quick", outdir = ".";
  uint64_t seed = 1, shard = 0, nshards = 1, cases = 1000, only = UINT64_MAX;
  uint64_t first = 0;
  bool thorough() const { return tier == "thorough"; }
  volatile uint64_t* progress = nullptr;
  FILE* out = nullptr;
  uint64_t evals = 0, violations = 0;
  std::set<std::string> viol_keys;
  std::unordered_set<uint64_t> distinct;
  uint64_t distinct_over = 0;
  std::map<std::string, uint64_t> counters;
  std::vector<std::string> samples;
  uint64_t cur = 0;

  void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
  // One evaluated execution; `fp` identifies it, `nontrivial` by the rule of
  // the property.
  void eval(uint64_t fp, bool nontrivial = true) {
    evals++;
    if (!nontrivial) return;
    if (distinct.size() < 400000) distinct.insert(fp);
    else distinct_over++;
  }
  void sample(const std::string& s) {
    if (samples.size() < 3) samples.push_back(s.substr(0, 1500));
  }
  // The code under test broke the property in the current case.
  void fail(const std::string& key, const std::string& msg, const std::string& input) {
    violations++;
    if (!viol_keys.insert(key).second || viol_keys.size() > 12) return;
    fprintf(out, "{\"t\":\"viol\",\"prop\":\"%s\",\"key\":\"%s\",\"case\":%llu,\"msg\":\"%s\",\"input\":\"%s\"}\n",
            prop.c_str(), jsonEscape(key).c_str(), (unsigned long long)cur, jsonEscape(msg.substr(0, 4000)).c_str(),
            jsonEscape(input.substr(0, 60000)).c_str());
    fflush(out);
  }
  // The harness itself is wrong or its environment is not as expected.
  [[noreturn]] void harnessError(const std::string& msg) {
    fprintf(out, "{\"t\":\"error\",\"case\":%llu,\"msg\":\"%s\"}\n", (unsigned long long)cur, jsonEscape(msg).c_str());
    fflush(out);
    _exit(9);
  }
  Rng caseRng(uint64_t salt = 0) const {
    uint64_t x = seed * 0x9e3779b97f4a7c15ULL ^ fnv(prop) ^ (cur * 0xd1342543de82ef95ULL) ^ (salt << 17);
    splitmix(x);
    return Rng(x);
  }
  void finish() {
    std::string f = outdir + "/fp." + std::to_string(shard);
    if (FILE* o = fopen(f.c_str(), "wb")) {
      for (uint64_t d : distinct) fwrite(&d, 8, 1, o);
      fclose(o);
    }
    std::string c, s;
    for (auto& kv : counters)
      c += (c.empty() ? "\"" : ",\"") + jsonEscape(kv.first) + "\":" + std::to_string(kv.second);
    for (auto& x : samples) s += (s.empty() ? "\"" : ",\"") + jsonEscape(x) + "\"";
    fprintf(out, "{\"t\":\"done\",\"evals\":%llu,\"violations\":%llu,\"counters\":{%s},\"samples\":[%s]}\n",
            (unsigned long long)evals, (unsigned long long)violations, c.c_str(), s.c_str());
    fflush(out);
  }
};

inline Run& R() {
  static Run* r = new Run;
  return *r;
}

// Parses the command line, runs the cases of this shard, returns the exit code.
inline int runMain(int argc, char** argv, const std::function<void()>& setup,
                   const std::function<void(Run&)>& one) {
  Run& r = R();
  std::string outfile;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i], v = argv[i + 1];
    if (k == "--prop") r.prop = v;
    else if (k == "--tier") r.tier = v;
    else if (k == "--seed") r.seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--shard") r.shard = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--nshards") r.nshards = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--cases") r.cases = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--only") r.only = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--first") r.first = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--out") r.outdir = v;
  }
  std::string of = r.outdir + "/out." + std::to_string(r.shard);
  r.out = fopen(of.c_str(), "a");
  if (!r.out) { perror("out"); return 9; }
  std::string pf = r.outdir + "/progress." + std::to_string(r.shard);
  int fd = open(pf.c_str(), O_RDWR | O_CREAT, 0600);
  static uint64_t dummy;
  r.progress = &dummy;
  if (fd >= 0 && ftruncate(fd, 8) == 0) {
    void* m = mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m != MAP_FAILED) r.progress = static_cast<volatile uint64_t*>(m);
  }
  setup();
  if (r.only != UINT64_MAX) {
    r.cur = r.only;
    *r.progress = r.cur + 1;
    one(r);
  } else {
    for (uint64_t i = r.first + r.shard; i < r.cases; i += r.nshards) {
      r.cur = i;
      *r.progress = i + 1;
      one(r);
      if (r.viol_keys.size() >= 6) break;
    }
  }
  r.finish();
  return 0;
}

}  // namespace vh
