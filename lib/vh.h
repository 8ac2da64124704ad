// vh.h : common runtime-monitoring harness.
// A harness registers "families" of generated cases.  Case i of a family is a pure function of
// (VERIF_SEED, family name, i), so every verdict can be replayed with  --family F --case i --seed S.
// The harness reports
//   * monitor violations (ctx.fail / VH_CHECK)        -> one JSON line per violation
//   * counts of what the monitors observed            -> summary JSON
//   * signatures of the distinct non-trivial cases    -> binary file of 64-bit hashes
// Aborts, sanitizer reports and CPU-time hangs are attributed to the running case by means of a small
// progress file that is rewritten before every case.
#ifndef VH_H
#define VH_H
#include <cassert>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <array>
#include <sstream>

namespace vh {

inline uint64_t mix64(uint64_t z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c: s) { h = (h ^ c) * 1099511628211ull; }
  return mix64(h);
}
struct Hash {
  uint64_t h = 0x1234567;
  Hash &u(uint64_t x) { h = mix64(h ^ mix64(x)); return *this; }
  Hash &d(double x) {
    if (x == 0) x = 0; // -0 and +0 alike
    uint64_t b; memcpy(&b, &x, 8); return u(b);
  }
  Hash &s(const std::string &x) { return u(hash_str(x)); }
  template<class V> Hash &vu(const V &v) { u(v.size()); for (auto &x: v) u((uint64_t) x); return *this; }
  template<class V> Hash &vd(const V &v) { u(v.size()); for (auto &x: v) d((double) x); return *this; }
};

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix64(seed)) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
  // satisfies UniformRandomBitGenerator
  typedef uint64_t result_type;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t operator()() { return next(); }
  double u01() { return (double) (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u01(); }
  int irange(int a, int b) { return a + (int) (next() % (uint64_t) (b - a + 1)); } // inclusive
  bool chance(double p) { return u01() < p; }
  double gauss() {
    double a = u01(), b = u01();
    return std::sqrt(-2 * std::log(a + 1e-300)) * std::cos(6.283185307179586 * b);
  }
  template<class V> auto &pick(V &v) { return v[next() % v.size()]; }
  template<class T> T pick(const std::vector<T> &v) { return v[next() % v.size()]; }
  template<class T> T pick(std::initializer_list<T> v) { return v.begin()[next() % v.size()]; }
  template<class V> void shuffle(V &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]);
  }
};

inline std::string fmt(const char *f, ...) {
  va_list ap; va_start(ap, f);
  char buf[4096];
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c: s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char) c;
  }
  return o;
}
template<class V> std::string str(const V &v, size_t nmax = 40) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  size_t i = 0;
  for (auto &x: v) { if (i >= nmax) { o << ",..."; break; } if (i) o << ","; o << x; ++i; }
  o << "]";
  return o.str();
}

struct Config {
  uint64_t seed = 1;
  bool thorough = false;
  int shard = 0, nshard = 1;
  std::string only_family;
  long only_case = -1;
  std::string out_prefix;   // results: <prefix>.viol .sum .sig .prog
  std::string start_family; // restart after a crash
  long start_case = -1;
  double scale = 1;
  std::string dir;          // scratch directory of this process
};
inline Config &cfg() { static Config c; return c; }

struct Stats {
  std::map<std::string, uint64_t> counts;
  std::unordered_set<uint64_t> sigs;
  std::vector<std::string> samples;
  std::map<std::string, int> sample_per_family;
  uint64_t evaluations = 0;
  uint64_t nviol = 0;
  std::map<std::string, int> viol_per_key;
  FILE *fviol = nullptr;
};
inline Stats &st() { static Stats s; return s; }

// lazily formatted checks: CK(cond, "clause", "format", args...)
#define CK(cond, what, ...) (ctx.checkf((cond), what, [&] { return vh::fmt(__VA_ARGS__); }))
#define CKN(a, b, tol, what, ...) \
  ([&] { const double ck_a = (a), ck_b = (b), ck_t = (tol); \
    return ctx.checkf(std::fabs(ck_a - ck_b) <= ck_t, what, [&] { return vh::fmt("got %.17g expected %.17g tol %.3g ", ck_a, ck_b, ck_t) + vh::fmt(__VA_ARGS__); }); }())

struct Ctx {
  std::string family;
  long icase;
  Rng rng;
  bool failed = false;
  Ctx(const std::string &f, long i, uint64_t seed) : family(f), icase(i), rng(seed) {}
  // a monitor refuted the property. `what` names the refuted clause and is part of the violation key
  void fail(const std::string &what, const std::string &detail = "") {
    failed = true;
    auto &s = st();
    std::string key = family + "/" + what;
    s.nviol++;
    if (s.viol_per_key[key]++ < 3) {
      std::string line = fmt("{\"key\":\"%s\",\"family\":\"%s\",\"case\":%ld,\"detail\":\"", jesc(key).c_str(),
                             jesc(family).c_str(), icase) + jesc(detail.substr(0, 3000)) + "\"}\n";
      if (s.fviol) { fputs(line.c_str(), s.fviol); fflush(s.fviol); }
      else fputs(line.c_str(), stdout);
    }
  }
  bool check(bool ok, const char *what, const std::string &detail = "") {
    st().counts["monitor_checks"]++;
    if (!ok) fail(what, detail);
    return ok;
  }
  template<class F> bool checkf(bool ok, const char *what, F &&detail) {
    st().counts["monitor_checks"]++;
    if (!ok) fail(what, detail());
    return ok;
  }
  template<class F> bool checkf(bool ok, const std::string &what, F &&detail) { return checkf(ok, what.c_str(), std::forward<F>(detail)); }
  bool near(double a, double b, double tol, const char *what, const std::string &detail = "") {
    st().counts["monitor_checks"]++;
    if (!(std::fabs(a - b) <= tol)) {
      fail(what, fmt("got %.17g expected %.17g tol %.3g ", a, b, tol) + detail);
      return false;
    }
    return true;
  }
  bool check(bool ok, const std::string &what, const std::string &detail = "") { return check(ok, what.c_str(), detail); }
  void count(const char *name, uint64_t n = 1) { st().counts[name] += n; }
  void count(const std::string &name, uint64_t n = 1) { st().counts[name] += n; }
  void sig(uint64_t h) { st().sigs.insert(mix64(h ^ hash_str(family))); }
  void sig(const Hash &h) { sig(h.h); }
  void sample(const std::string &s) {
    auto &t = st();
    if (t.sample_per_family[family]++ < 2) t.samples.push_back(fmt("%s#%ld: ", family.c_str(), icase) + s.substr(0, 400));
  }
  bool thorough() const { return cfg().thorough; }
};

struct Family {
  std::string name;
  long nquick, nthorough;
  std::function<void(Ctx &)> fn;
  double cpu_limit; // seconds of CPU time after which one case counts as hung
};
inline std::vector<Family> &fams() { static std::vector<Family> f; return f; }
struct Reg {
  Reg(const char *n, long q, long t, std::function<void(Ctx &)> f, double cpu = 30) { fams().push_back({n, q, t, f, cpu}); }
};
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a,b)
// VH_FAMILY(name, cases_quick, cases_thorough) { ... ctx ... }
#define VH_FAMILY(NAME, Q, T) \
  static void fam_##NAME(vh::Ctx &ctx); \
  static vh::Reg reg_##NAME(#NAME, Q, T, fam_##NAME); \
  static void fam_##NAME(vh::Ctx &ctx)
#define VH_FAMILY_CPU(NAME, Q, T, CPU) \
  static void fam_##NAME(vh::Ctx &ctx); \
  static vh::Reg reg_##NAME(#NAME, Q, T, fam_##NAME, CPU); \
  static void fam_##NAME(vh::Ctx &ctx)

struct Prog { char family[120]; long icase; uint64_t done; };
inline Prog *&prog() { static Prog *p = nullptr; return p; }

inline void on_prof(int) {
  static const char m[] = "\nVH-HANG\n";
  (void) !write(2, m, sizeof m - 1);
  _exit(77);
}
inline void arm(double sec) {
  struct itimerval it{};
  it.it_value.tv_sec = (long) sec;
  it.it_value.tv_usec = (long) ((sec - (long) sec) * 1e6);
  setitimer(ITIMER_PROF, &it, nullptr);
}
inline void dump(bool final_) {
  auto &c = cfg();
  auto &s = st();
  if (c.out_prefix.empty()) {
    printf("evaluations=%lu distinct=%lu violations=%lu\n", (unsigned long) s.evaluations, (unsigned long) s.sigs.size(),
           (unsigned long) s.nviol);
    for (auto &kv: s.counts) printf("  %s=%lu\n", kv.first.c_str(), (unsigned long) kv.second);
    return;
  }
  FILE *f = fopen((c.out_prefix + ".sig").c_str(), "wb");
  for (uint64_t h: s.sigs) fwrite(&h, 8, 1, f);
  fclose(f);
  f = fopen((c.out_prefix + ".sum.tmp").c_str(), "w");
  fprintf(f, "{\"final\":%s,\"evaluations\":%lu,\"nviol\":%lu,\"counts\":{", final_ ? "true" : "false",
          (unsigned long) s.evaluations, (unsigned long) s.nviol);
  bool first = true;
  for (auto &kv: s.counts) {
    fprintf(f, "%s\"%s\":%lu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long) kv.second);
    first = false;
  }
  fprintf(f, "},\"samples\":[");
  first = true;
  for (auto &x: s.samples) {
    fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str());
    first = false;
  }
  fprintf(f, "]}\n");
  fclose(f);
  rename((c.out_prefix + ".sum.tmp").c_str(), (c.out_prefix + ".sum").c_str());
}

inline int run_main(int argc, char **argv) {
  auto &c = cfg();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") c.seed = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--thorough") c.thorough = true;
    else if (a == "--shard") { auto v = nx(); sscanf(v.c_str(), "%d/%d", &c.shard, &c.nshard); }
    else if (a == "--family") c.only_family = nx();
    else if (a == "--case") c.only_case = atol(nx().c_str());
    else if (a == "--out") c.out_prefix = nx();
    else if (a == "--start-family") c.start_family = nx();
    else if (a == "--start-case") c.start_case = atol(nx().c_str());
    else if (a == "--scale") c.scale = atof(nx().c_str());
    else if (a == "--dir") c.dir = nx();
    else if (a == "--list") {
      for (auto &f: fams()) printf("%s %ld %ld\n", f.name.c_str(), f.nquick, f.nthorough);
      return 0;
    } else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 90; }
  }
  if (!c.out_prefix.empty()) {
    st().fviol = fopen((c.out_prefix + ".viol").c_str(), "a");
    int fd = open((c.out_prefix + ".prog").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Prog)) != 0) { fprintf(stderr, "progress file\n"); return 91; }
    prog() = (Prog *) mmap(nullptr, sizeof(Prog), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
  }
  signal(SIGPROF, on_prof);
  bool started = c.start_family.empty();
  for (auto &f: fams()) {
    if (!c.only_family.empty() && f.name != c.only_family) continue;
    long n = (long) std::ceil((c.thorough ? f.nthorough : f.nquick) * c.scale);
    long i0 = 0;
    if (!started) {
      if (f.name != c.start_family) continue;
      started = true;
      i0 = c.start_case;
    }
    for (long i = i0; i < n; ++i) {
      if (c.only_case >= 0 && i != c.only_case) continue;
      if (c.only_case < 0 && i % c.nshard != c.shard) continue;
      if (prog()) {
        snprintf(prog()->family, sizeof prog()->family, "%s", f.name.c_str());
        prog()->icase = i;
      }
      Ctx ctx(f.name, i, mix64(c.seed) ^ hash_str(f.name) ^ mix64((uint64_t) i * 2 + 1));
      arm(f.cpu_limit);
      f.fn(ctx);
      arm(0);
      st().evaluations++;
      st().counts["cases:" + f.name]++;
      if (prog()) prog()->done++;
    }
    if (c.only_case >= 0 && c.only_family == f.name && c.only_case >= n) {
      // a replayed case beyond the count of this tier is still a valid case
      Ctx ctx(f.name, c.only_case, mix64(c.seed) ^ hash_str(f.name) ^ mix64((uint64_t) c.only_case * 2 + 1));
      f.fn(ctx);
    }
    if (!c.out_prefix.empty()) dump(false);
  }
  if (prog()) { snprintf(prog()->family, sizeof prog()->family, "(end)"); prog()->icase = -1; }
  dump(true);
  return (int) (c.only_case >= 0 && st().nviol ? 1 : 0);
}
} // namespace vh
#ifndef VH_NO_MAIN
int main(int argc, char **argv) { return vh::run_main(argc, argv); }
#endif
#endif
