// Monitor framework: seeded scenario runner, violation recorder, observation
// counters.  Every driver links one translation unit that registers scenarios.
#ifndef VF_HPP_
#define VF_HPP_
#include <chrono>
#include <Eigen/Dense>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#ifdef VF_VALGRIND
#include <valgrind/valgrind.h>
#endif
#include <vector>

namespace vf {
typedef Eigen::VectorXd V;
typedef Eigen::MatrixXd M;

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (char c : s) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
  return h;
}

class Rng {
 public:
  explicit Rng(uint64_t seed) : s_(seed) {}
  uint64_t next() { s_ += 0x9e3779b97f4a7c15ull; return mix(s_); }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  // inclusive bounds
  int irange(int a, int b) { return a + static_cast<int>(next() % static_cast<uint64_t>(b - a + 1)); }
  bool coin(double p = 0.5) { return uni() < p; }
  double normal() {
    double u1 = uni(), u2 = uni();
    if (u1 < 1e-300) u1 = 1e-300;
    return std::sqrt(-2 * std::log(u1)) * std::cos(6.283185307179586 * u2);
  }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  V vec(Eigen::Index n, double s = 1.) {
    V v(n);
    for (Eigen::Index i = 0; i < n; ++i) v[i] = uni(-s, s);
    return v;
  }
  M mat(Eigen::Index r, Eigen::Index c, double s = 1.) {
    M m(r, c);
    for (Eigen::Index j = 0; j < c; ++j)
      for (Eigen::Index i = 0; i < r; ++i) m(i, j) = uni(-s, s);
    return m;
  }
  // symmetric positive definite with eigenvalues >= mineig
  M spd(Eigen::Index n, double mineig = 0.1) {
    M a = mat(n, n);
    M r = a * a.transpose() / (n > 0 ? double(n) : 1.);
    r += mineig * M::Identity(n, n);
    return r;
  }
  template <class T>
  T pick(std::initializer_list<T> l) { return *(l.begin() + irange(0, int(l.size()) - 1)); }
  template <class T>
  const T& pick(const std::vector<T>& l) { return l[irange(0, int(l.size()) - 1)]; }
  std::vector<int> perm(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; ++i) p[i] = i;
    for (int i = n - 1; i > 0; --i) std::swap(p[i], p[irange(0, i)]);
    return p;
  }

 private:
  uint64_t s_;
};

struct Violation { std::string key, scenario, detail; uint64_t index; };

struct Report {
  std::vector<Violation> violations;
  std::map<std::string, uint64_t> per_key;
  std::map<std::string, uint64_t> counters;
  std::map<std::string, double> maxima;
  std::set<uint64_t> sigs;
  std::vector<std::string> samples, situations;
  uint64_t evaluations = 0, cases = 0;
};

// text that is only formatted when somebody reads it
template <class F>
struct Lazy {
  F f;
  operator std::string() const { std::ostringstream o; f(o); return o.str(); }
};
template <class F>
inline Lazy<F> make_lazy(F f) { return Lazy<F>{f}; }

// runs under a memory checker judge memory only: what the checks say is judged elsewhere
inline bool& memory_only() { static bool m = false; return m; }

class Ctx {
 public:
  Ctx(Report& r, const std::string& s, uint64_t i, bool th, bool v)
      : scenario(s), index(i), thorough(th), verbose(v), rep_(r) {}
  // one oracle evaluation
  bool check(bool ok, const std::string& key, const std::string& detail = "") {
    rep_.evaluations++;
    if (!ok) fail(key, detail);
    return ok;
  }
  template <class F>
  bool check(bool ok, const char* key, const Lazy<F>& detail) {
    rep_.evaluations++;
    if (!ok) fail(key, detail);
    return ok;
  }
  bool check(bool ok, const char* key) {
    rep_.evaluations++;
    if (!ok) fail(key, "");
    return ok;
  }
  void fail(const std::string& key, const std::string& detail) {
    failed_ = true;
    if (memory_only()) return;
    uint64_t& n = rep_.per_key[key];
    if (n++ < 3) rep_.violations.push_back(Violation{key, scenario, detail, index});
    if (verbose) std::cerr << "VIOLATED key=" << key << " " << scenario << ":" << index << " " << detail << std::endl;
  }
  bool failed() const { return failed_; }
  void count(const std::string& n, uint64_t k = 1) { rep_.counters[n] += k; }
  void maxi(const std::string& n, double v) {
    auto it = rep_.maxima.find(n);
    if (it == rep_.maxima.end()) rep_.maxima[n] = v;
    else if (v > it->second) it->second = v;
  }
  // a distinct non-trivial situation that was really observed
  void sig(const std::string& s) {
    if (!rep_.sigs.insert(hash_str(s)).second) return;
    const std::string t = scenario + " situation " + s;  // one example of each scenario, in case no sample is recorded
    for (auto& o : rep_.situations) if (o.compare(0, scenario.size() + 1, scenario + " ") == 0) return;
    rep_.situations.push_back(t);
  }
  void sample(const std::string& s) { if (rep_.samples.size() < 4) rep_.samples.push_back(s); }
  const std::string scenario;
  const uint64_t index;
  const bool thorough, verbose;

 private:
  Report& rep_;
  bool failed_ = false;
};

struct Scenario {
  std::string name;
  std::function<void(Ctx&, Rng&)> fn;
  uint64_t quick, thorough;
};
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
struct Registrar {
  Registrar(const char* n, std::function<void(Ctx&, Rng&)> f, uint64_t q, uint64_t t) {
    scenarios().push_back(Scenario{n, f, q, t});
  }
};
#define VF_SCENARIO(name, quick, thorough)                                        \
  static void scn_##name(vf::Ctx& c, vf::Rng& r);                                  \
  static vf::Registrar reg_##name(#name, scn_##name, quick, thorough);             \
  static void scn_##name(vf::Ctx& c, vf::Rng& r)

#define VF_STR(x) vf::make_lazy([&](std::ostream& o_) { o_ << std::setprecision(12) << x; })

// ---- comparisons ---------------------------------------------------------
template <class A>
inline bool finite(const Eigen::MatrixBase<A>& a) {
  for (Eigen::Index j = 0; j < a.cols(); ++j)
    for (Eigen::Index i = 0; i < a.rows(); ++i)
      if (!std::isfinite(double(a(i, j)))) return false;
  return true;
}
template <class A>
inline double amax(const Eigen::MatrixBase<A>& a) {
  double m = 0;
  for (Eigen::Index j = 0; j < a.cols(); ++j)
    for (Eigen::Index i = 0; i < a.rows(); ++i) {
      double v = std::abs(double(a(i, j)));
      if (!(v <= m)) m = v;  // NaN propagates
      if (std::isnan(v)) return v;
    }
  return m;
}
// relative error against the larger magnitude (floor 1)
template <class A, class B>
inline double relerr(const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return std::numeric_limits<double>::infinity();
  if (a.size() == 0) return 0;
  M d(a.rows(), a.cols());
  double sc = 1;
  for (Eigen::Index j = 0; j < a.cols(); ++j)
    for (Eigen::Index i = 0; i < a.rows(); ++i) {
      double x = double(a(i, j)), y = double(b(i, j));
      if (x == y || (std::isnan(x) && std::isnan(y))) d(i, j) = 0; else d(i, j) = x - y;
      if (std::isfinite(x)) sc = std::max(sc, std::abs(x));
      if (std::isfinite(y)) sc = std::max(sc, std::abs(y));
    }
  double m = amax(d);
  return std::isnan(m) ? std::numeric_limits<double>::infinity() : m / sc;
}
inline double relerr(double a, double b) {
  if (a == b || (std::isnan(a) && std::isnan(b))) return 0;
  double d = std::abs(a - b);
  if (!std::isfinite(d)) return std::numeric_limits<double>::infinity();
  return d / std::max(1., std::max(std::abs(a), std::abs(b)));
}
// bitwise-style equality (NaN==NaN)
template <class A, class B>
inline bool same(const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b) { return relerr(a, b) == 0; }
inline bool same(const std::vector<V>& a, const std::vector<V>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
  return true;
}
inline double relerr(const std::vector<V>& a, const std::vector<V>& b) {
  if (a.size() != b.size()) return std::numeric_limits<double>::infinity();
  double m = 0;
  for (size_t i = 0; i < a.size(); ++i) m = std::max(m, relerr(a[i], b[i]));
  return m;
}
// Silences std::cout/cerr of the code under test
struct Quiet {
  std::ostringstream buf;
  std::streambuf *o, *e;
  Quiet() : o(std::cout.rdbuf(buf.rdbuf())), e(std::cerr.rdbuf(buf.rdbuf())) {}
  ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
// true when f throws (a std::exception), false when it returns
template <class F>
inline bool throws(F f, std::string* what = nullptr) {
  try { f(); } catch (const std::exception& e) { if (what) *what = e.what(); return true; }
  return false;
}

// ---- runner --------------------------------------------------------------
inline std::string jesc(const std::string& s) {
  std::string o;
  for (char ch : s) {
    unsigned char u = static_cast<unsigned char>(ch);
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (u < 0x20 || u > 0x7e) { char b[8]; snprintf(b, 8, "\\u%04x", u); o += b; }
    else o += ch;
  }
  return o;
}
inline void write_report(const Report& r, const std::string& path) {
  std::ostringstream o;
  o.precision(17);
  o << "{\"cases\":" << r.cases << ",\"evaluations\":" << r.evaluations << ",\"violations\":[";
  for (size_t i = 0; i < r.violations.size(); ++i) {
    const Violation& v = r.violations[i];
    o << (i ? "," : "") << "{\"key\":\"" << jesc(v.key) << "\",\"scenario\":\"" << jesc(v.scenario) << "\",\"index\":" << v.index
      << ",\"count\":" << r.per_key.at(v.key) << ",\"detail\":\"" << jesc(v.detail.substr(0, 1500)) << "\"}";
  }
  o << "],\"counters\":{";
  bool f = true;
  for (auto& k : r.counters) { o << (f ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; f = false; }
  o << "},\"maxima\":{";
  f = true;
  for (auto& k : r.maxima) {
    o << (f ? "" : ",") << "\"" << jesc(k.first) << "\":";
    if (std::isfinite(k.second)) o << k.second; else o << "\"" << k.second << "\"";
    f = false;
  }
  o << "},\"sigs\":[";
  f = true;
  for (auto s : r.sigs) { o << (f ? "" : ",") << "\"" << std::hex << s << std::dec << "\""; f = false; }
  const std::vector<std::string>& sm = r.samples.empty() ? r.situations : r.samples;
  o << "],\"samples\":[";
  for (size_t i = 0; i < sm.size(); ++i) o << (i ? "," : "") << "\"" << jesc(sm[i]) << "\"";
  o << "]}\n";
  const std::string tmp = path + ".tmp";
  FILE* fp = fopen(tmp.c_str(), "w");
  if (!fp) { perror("report"); _exit(95); }
  const std::string s = o.str();
  fwrite(s.data(), 1, s.size(), fp);
  fclose(fp);
  rename(tmp.c_str(), path.c_str());
}
inline int& progress_fd() { static int fd = -1; return fd; }
inline void on_cpu_limit(int) {
  static const char m[] = "\nVF-CPU-LIMIT case exceeded its CPU budget\n";
  ssize_t k = write(2, m, sizeof(m) - 1);
  (void)k;
  _exit(97);
}
inline void on_terminate() {
  static const char m[] = "\nVF-TERMINATE std::terminate called\n";
  ssize_t k = write(2, m, sizeof(m) - 1);
  (void)k;
  abort();
}

inline std::string& current_case() { static std::string s; return s; }
inline int run_main(int argc, char** argv, const char* prop) {
  uint64_t seed = 1;
  bool thorough = false, verbose = false;
  int shard = 0, nshard = 1;
  double scale = 1;
  long cpu = 60;
  std::string out, only;
  std::set<std::string> skip, known;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--tier") thorough = val() == "thorough";
    else if (a == "--shard") { std::string s = val(); sscanf(s.c_str(), "%d/%d", &shard, &nshard); }
    else if (a == "--out") out = val();
    else if (a == "--only") only = val();
    else if (a == "--known") known.insert(val());
    else if (a == "--skip") skip.insert(val());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--cpu") cpu = atol(val().c_str());
    else if (a == "--progress") progress_fd() = open(val().c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    else if (a == "--verbose") verbose = true;
    else if (a == "--memory") memory_only() = true;
    else if (a == "--list") { for (auto& s : scenarios()) std::cout << s.name << " " << s.quick << " " << s.thorough << "\n"; return 0; }
  }
  signal(SIGPROF, on_cpu_limit);
  std::set_terminate(on_terminate);
  Report rep;
  uint64_t k = 0;
  const auto began = std::chrono::steady_clock::now();
  bool enough = false;  // a broken tree can make every case slow: stop once the verdict is plain
  for (auto& s : scenarios()) {
    if (enough) break;
    uint64_t n = thorough ? s.thorough : s.quick;
    if (n && scale != 1) n = std::max<uint64_t>(1, uint64_t(n * scale));
    for (uint64_t i = 0; i < n; ++i) {
      if (int(k++ % uint64_t(nshard)) != shard) continue;
      std::string id = s.name + ":" + std::to_string(i);
      if (!only.empty() && only != id && only != s.name) continue;
      if (skip.count(id)) continue;
      current_case() = id;
      if (progress_fd() >= 0) {
        char b[160];
        int m = snprintf(b, sizeof b, "%-150s\n", id.c_str());
        ssize_t q = pwrite(progress_fd(), b, size_t(m), 0);
        (void)q;
      }
      struct itimerval tv = {{0, 0}, {cpu, 0}};
      setitimer(ITIMER_PROF, &tv, 0);
      Rng rng(mix(seed * 0x51ed27f1ull) ^ mix(hash_str(std::string(prop) + "/" + s.name) + i * 0x2545F4914F6CDD1Dull));
      Ctx c(rep, s.name, i, thorough, verbose);
      rep.cases++;
      try {
        s.fn(c, rng);
      } catch (const std::exception& e) {
        std::string w = e.what();
        c.fail("exception:" + s.name, w);
      }
#ifdef VF_VALGRIND
      static unsigned seen = 0;
      const unsigned errors = VALGRIND_COUNT_ERRORS;
      if (errors != seen) { seen = errors; fprintf(stderr, "\nVF-VG-CASE %s\n", id.c_str()); }
#endif
      const double took = std::chrono::duration<double>(std::chrono::steady_clock::now() - began).count();
      const bool broken = std::any_of(rep.violations.begin(), rep.violations.end(), [&](const Violation& v) { return !known.count(v.key); });
      if (broken && took > 40) { rep.counters["stopped early"]++; enough = true; break; }
    }
  }
  struct itimerval tv = {{0, 0}, {0, 0}};
  setitimer(ITIMER_PROF, &tv, 0);
  if (!out.empty()) write_report(rep, out);
  if (verbose || out.empty()) {
    std::cerr << prop << ": cases=" << rep.cases << " evals=" << rep.evaluations << " sigs=" << rep.sigs.size() << "\n";
    for (auto& m : rep.counters) std::cerr << "  #" << m.first << " = " << m.second << "\n";
    for (auto& m : rep.maxima) std::cerr << "  max " << m.first << " = " << m.second << "\n";
    for (auto& m : rep.per_key) std::cerr << "  !! " << m.first << " x" << m.second << "\n";
    for (auto& v : rep.violations) std::cerr << "     " << v.key << " @" << v.scenario << ":" << v.index << " " << v.detail.substr(0, 400) << "\n";
  }
  return rep.violations.empty() ? 0 : 3;
}
}  // namespace vf
#ifdef __SANITIZE_THREAD__  // names the case after each report of ThreadSanitizer
extern "C" inline __attribute__((used)) void __tsan_on_report(void*) { fprintf(stderr, "\nVF-TSAN-CASE %s\n", vf::current_case().c_str()); }
#endif
#define VF_MAIN(prop) int main(int argc, char** argv) { return vf::run_main(argc, argv, prop); }
#endif
