// Monitor runtime shared by every driver: cases, oracle events, verdict lines.
// Protocol on stdout (tab separated): VIOL key context detail | STAT key n maxratio
// | COUNT evaluations distinct | SAMPLE text | EVENT name n | DONE section
#pragma once
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unistd.h>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace vf {

inline char current_case[2048] = "(start)";
inline FILE *out() { static FILE *f = fdopen(dup(1), "w"); return f; }

inline void crash_note() {
  const char *p = "CRASH\t";
  (void)!write(3, p, 6);
  (void)!write(3, current_case, strlen(current_case));
  (void)!write(3, "\n", 1);
}
inline void on_signal(int s) { crash_note(); signal(s, SIG_DFL); raise(s); }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int integer(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
  double uniform() { return (next() >> 11) * 0x1p-53; }
  double uniform(double a, double b) { return a + (b - a) * uniform(); }
  double loguniform(double a, double b) { return std::exp(uniform(std::log(a), std::log(b))); }
  double gauss() {
    double u = uniform() + 1e-300, v = uniform();
    return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v);
  }
  bool coin(double p = 0.5) { return uniform() < p; }
  template <class C> auto pick(const C &c) { return c[next() % c.size()]; }
  template <class X> X pick(std::initializer_list<X> c) { return *(c.begin() + next() % c.size()); }
};

struct Stat { uint64_t n = 0; long double maxratio = 0; std::string worst; };

struct Mon {
  std::mutex mx;
  std::map<std::string, Stat> stats;
  std::map<std::string, uint64_t> events;
  std::map<std::string, int> viol_per_key;
  std::set<uint64_t> distinct;
  std::vector<std::string> samples;
  uint64_t evaluations = 0, violations = 0;
  std::string ctx;

  // start a case; `nontrivial` cases are counted once per distinct description
  void begin(const std::string &desc, bool nontrivial = true) {
    std::lock_guard<std::mutex> g(mx);
    ctx = desc;
    snprintf(current_case, sizeof current_case, "%s", desc.c_str());
    evaluations++;
    if (nontrivial) {
      uint64_t h = 1469598103934665603ull;
      for (unsigned char c : desc) h = (h ^ c) * 1099511628211ull;
      if (distinct.insert(h).second && samples.size() < 6 && (distinct.size() < 4 || distinct.size() % 37 == 0))
        samples.push_back(desc);
    }
  }
  void viol(const std::string &key, const std::string &detail) {
    violations++;
    if (viol_per_key[key]++ < 4) {
      std::string d = detail;
      for (char &c : d) if (c == '\n' || c == '\t') c = ' ';
      fprintf(out(), "VIOL\t%s\t%s\t%s\n", key.c_str(), ctx.c_str(), d.c_str());
      fflush(out());
    }
  }
  bool close(const std::string &key, long double got, long double ref, long double tol, const std::string &extra = "") {
    std::lock_guard<std::mutex> g(mx);
    Stat &s = stats[key];
    s.n++;
    long double err = std::fabs(got - ref);
    bool ok = err <= tol;   // false on NaN
    long double ratio = tol > 0 ? err / tol : (err == 0 ? 0 : 1e300L);
    if (!(ratio <= s.maxratio)) { s.maxratio = ratio; s.worst = ctx + " " + extra; }
    if (!ok) {
      char buf[512];
      snprintf(buf, sizeof buf, "got=%.20Lg ref=%.20Lg err=%.3Lg tol=%.3Lg %s", got, ref, err, tol, extra.c_str());
      viol(key, buf);
    }
    return ok;
  }
  // |err| <= tol where err was computed by the caller in extended precision
  bool small(const std::string &key, long double err, long double tol, const std::string &extra = "") {
    return close(key, err, 0.0L, tol, extra);
  }
  bool require(const std::string &key, bool cond, const std::string &detail = "") {
    std::lock_guard<std::mutex> g(mx);
    stats[key].n++;
    if (!cond) viol(key, detail.empty() ? "condition is false" : detail);
    return cond;
  }
  void event(const std::string &name, uint64_t n = 1) { std::lock_guard<std::mutex> g(mx); events[name] += n; }
};

struct Ctx {
  Mon &m; Rng rng; bool thorough; bool small; std::string scratch; uint64_t seed;
  int n(int quick, int thorough_n) const { return small ? std::max(1, quick / 4) : (thorough ? thorough_n : quick); }
};
struct Section { std::string name; std::function<void(Ctx &)> fn; int threads; };
inline std::vector<Section> &sections() { static std::vector<Section> s; return s; }
struct Reg { Reg(const char *n, std::function<void(Ctx &)> f, int threads = 1) { sections().push_back({n, f, threads}); } };
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_SECTION(NAME) \
  static void VF_CAT(vf_sec_, __LINE__)(vf::Ctx &); \
  static vf::Reg VF_CAT(vf_reg_, __LINE__)(NAME, VF_CAT(vf_sec_, __LINE__)); \
  static void VF_CAT(vf_sec_, __LINE__)(vf::Ctx & c)
// sections that only repeat another one at a wider scalar type; a light build does without them
#ifdef VF_LIGHT
#define VF_SECTION_WIDE(NAME) template <int> static void VF_CAT(vf_sec_, __LINE__)(vf::Ctx & c)
#else
#define VF_SECTION_WIDE(NAME) VF_SECTION(NAME)
#endif

template <class... A> std::string fmt(const char *f, A... a) {
  char b[1024]; snprintf(b, sizeof b, f, a...); return b;
}

// runs f, returns "" when it returned, otherwise a description of what was thrown
template <class F> std::string thrown(F f) {
  try { f(); return ""; }
  catch (std::exception &e) { return std::string("std:") + e.what(); }
  catch (...) { return "non-standard exception"; }
}

inline int run_main(int argc, char **argv) {
  std::string sec, tier = "quick", scratch = ".";
  uint64_t seed = 1; bool list = false, small = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--list") list = true;
    else if (a == "--small") small = true;
    else if (a == "--section") sec = argv[++i];
    else if (a == "--seed") seed = strtoull(argv[++i], 0, 10);
    else if (a == "--tier") tier = argv[++i];
    else if (a == "--scratch") scratch = argv[++i];
  }
  if (list) { for (auto &s : sections()) printf("%s\n", s.name.c_str()); return 0; }
  FILE *o = out();
  dup2(fileno(o), 3);                       // crash notes
  if (!freopen("/dev/null", "w", stdout)) return 3;  // silence library chatter
  if (!getenv("VF_NO_HANDLER"))
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, on_signal);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(crash_note);
  int rc = 4;
  for (auto &s : sections()) {
    if (s.name != sec) continue;
    Mon m;
    uint64_t h = seed;
    for (unsigned char ch : s.name) h = h * 1099511628211ull + ch;
    Ctx c{m, Rng(h), tier == "thorough", small, scratch, seed};
    std::string t = thrown([&] { s.fn(c); });
    if (!t.empty()) m.viol("unexpected_exception:" + s.name, t);
    for (auto &k : m.stats)
      fprintf(o, "STAT\t%s\t%llu\t%.3Lg\t%s\n", k.first.c_str(), (unsigned long long)k.second.n, k.second.maxratio, k.second.worst.c_str());
    for (auto &e : m.events) fprintf(o, "EVENT\t%s\t%llu\n", e.first.c_str(), (unsigned long long)e.second);
    for (auto &sa : m.samples) fprintf(o, "SAMPLE\t%s\n", sa.c_str());
    fprintf(o, "COUNT\t%llu\t%llu\t%llu\n", (unsigned long long)m.evaluations, (unsigned long long)m.distinct.size(), (unsigned long long)m.violations);
    fprintf(o, "DONE\t%s\n", s.name.c_str());
    fflush(o);
    rc = 0;
  }
  return rc;
}
}  // namespace vf
#define VF_MAIN int main(int argc, char **argv) { return vf::run_main(argc, argv); }
