// C30: diagnostics observe faithfully and change nothing.
// Time is the driver's: gettimeofday() and clock() are interposed, as are
// Stopwatch::start / stop (to record the profiler's event trace) and __cxa_throw
// (to know which regions an exception has left).
#include <algorithm>
#include "solv.hpp"
#include "gen3.hpp"
#include "crocoddyl/core/actions/unicycle.hpp"
#include "crocoddyl/core/utils/callbacks.hpp"
#include "crocoddyl/core/utils/stop-watch.hpp"
#include <dlfcn.h>
#include <typeinfo>
using namespace solv;
using vf::Ctx;
typedef long double LD;

// ---- interposition ---------------------------------------------------------------
static bool g_fake = false;
static uint64_t g_us = 1700000000000000ull, g_tick = 0, g_calls = 0;  // wall clock
static uint64_t g_cpu = 1000000, g_ctick = 0;                         // processor time
struct TraceEv { char type; std::string name; };
static bool g_trace = false;
static std::vector<TraceEv> g_ev;
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  if (g_fake) {
    ++g_calls;
    g_us += g_tick;
    tv->tv_sec = g_us / 1000000; tv->tv_usec = g_us % 1000000;
  } else {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
  }
  return 0;
}
extern "C" clock_t clock(void) noexcept {
  if (g_fake) { ++g_calls; g_cpu += g_ctick; return clock_t(g_cpu); }
  struct timespec t;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
  return clock_t(t.tv_sec * 1000000 + t.tv_nsec / 1000);
}
#define SW_START "_ZN9crocoddyl9Stopwatch5startERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"
#define SW_STOP "_ZN9crocoddyl9Stopwatch4stopERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"
extern "C" {
__attribute__((used, visibility("default"))) void vf_sw_start(void* self, const std::string& n) __asm__(SW_START);
__attribute__((used, visibility("default"))) void vf_sw_stop(void* self, const std::string& n) __asm__(SW_STOP);
typedef void (*SwFn)(void*, const std::string&);
void vf_sw_start(void* self, const std::string& n) {
  static SwFn f = (SwFn)dlsym(RTLD_NEXT, SW_START);
  if (g_trace && self == (void*)&cr::getProfiler()) g_ev.push_back(TraceEv{'+', n});
  f(self, n);
}
void vf_sw_stop(void* self, const std::string& n) {
  static SwFn f = (SwFn)dlsym(RTLD_NEXT, SW_STOP);
  f(self, n);
  if (g_trace && self == (void*)&cr::getProfiler()) g_ev.push_back(TraceEv{'-', n});
}
__attribute__((used, noreturn, visibility("default"))) void vf_throw(void* o, std::type_info* t, void (*d)(void*)) __asm__("__cxa_throw");
void vf_throw(void* o, std::type_info* t, void (*d)(void*)) {
  typedef void (*Fn)(void*, std::type_info*, void (*)(void*));
  static Fn f = (Fn)dlsym(RTLD_NEXT, "__cxa_throw");
  if (g_trace) g_ev.push_back(TraceEv{'!', ""});
  f(o, t, d);
  abort();
}
}

namespace {
struct Peek : cr::Stopwatch {  // number of completed measurements
  static std::map<std::string, PerformanceData>* of(cr::Stopwatch& s) { return s.*(&Peek::records_of); }
  static int stops(cr::Stopwatch& s, const std::string& n) { auto m = of(s); auto i = m->find(n); return i == m->end() ? -1 : i->second.stops; }
  static std::vector<std::string> names(cr::Stopwatch& s) { std::vector<std::string> v; for (auto& k : *of(s)) v.push_back(k.first); return v; }
};
template <class F> bool sw_throws(F f) { try { f(); } catch (const cr::StopwatchException&) { return true; } catch (const std::exception&) { return true; } return false; }
bool feq(LD a, LD b) { return std::fabs(a - b) <= 1e-6L * (1 + std::fabs(b)); }

// does the stopwatch's time follow the interposed clocks?
bool controllable(cr::Stopwatch& s, bool cpu) {
  s.set_mode(cpu ? cr::CPU_TIME : cr::REAL_TIME);
  const LD a = s.take_time();
  g_us += 5000000; g_cpu += 5000000;
  const LD b = s.take_time();
  return std::fabs((b - a) / (cpu ? (LD)CLOCKS_PER_SEC : 1.L) - 5) < 1e-3;
}
struct Fake {  // time stands still unless told otherwise
  Fake() { g_fake = true; g_tick = g_ctick = 0; }
  ~Fake() { g_fake = false; }
};
std::vector<std::string> words(const std::string& s) {
  std::istringstream i(s);
  std::vector<std::string> v;
  std::string w;
  while (i >> w) v.push_back(w);
  return v;
}
struct Fmt {
  std::ios_base::fmtflags f; std::streamsize p, w; char fill;
  explicit Fmt(const std::ostream& o) : f(o.flags()), p(o.precision()), w(o.width()), fill(o.fill()) {}
  bool operator==(const Fmt& o) const { return f == o.f && p == o.p && w == o.w && fill == o.fill; }
};
void odd_format(vf::Rng& r, std::ostream& o) {
  if (r.coin()) o << std::scientific; else if (r.coin()) o << std::fixed;
  if (r.coin(.3)) o << std::showpos;
  if (r.coin(.3)) o << std::left;
  if (r.coin()) o << std::setprecision(r.irange(1, 12));
}
}  // namespace

namespace {
// a model that fails now and then: NaN far away, indefinite Hessian of the controls
class Spoiled : public cr::ActionModelAbstract {
 public:
  CROCODDYL_BASE_DERIVED_CAST(cr::ActionModelBase, Spoiled)
  Spoiled(ActP m, double far, double neg) : cr::ActionModelAbstract(m->get_state(), m->get_nu(), 0, 0, m->get_nh(), 0, m->get_nh_T()), m_(m), far_(far), neg_(neg) {
    if (m->get_has_control_limits()) { set_u_lb(m->get_u_lb()); set_u_ub(m->get_u_ub()); }
  }
  void calc(const ActDP& d, const CRef& x, const CRef& u) override { m_->calc(d, x, u); if (u.norm() > far_) d->cost = NAN; }
  void calc(const ActDP& d, const CRef& x) override { m_->calc(d, x); }
  void calcDiff(const ActDP& d, const CRef& x, const CRef& u) override { m_->calcDiff(d, x, u); d->Luu.diagonal().array() -= neg_; }
  void calcDiff(const ActDP& d, const CRef& x) override { m_->calcDiff(d, x); }
  ActDP createData() override { return m_->createData(); }
  ActP m_;
  double far_, neg_;
};
}  // namespace

// ---- the stopwatch against a model of itself ----------------------------------------
VF_SCENARIO(stopwatch, 3000, 60000) {
  vf::Quiet q;
  Fake fake;
  const bool cpu = r.coin(.4);
  cr::Stopwatch s(cpu ? cr::CPU_TIME : cr::REAL_TIME);
  if (!controllable(s, cpu)) { c.count("clock not controllable"); return; }
  struct Rec { bool exists = false, running = false, paused = false; LD start = 0, carried = 0, total = 0, mn = 0, mx = 0, last = 0; int n = 0; };
  std::map<std::string, Rec> m;
  std::vector<std::string> names{"a", "b b", "SolverX::solve"};
  std::map<std::string, std::shared_ptr<cr::Stopwatch::Watcher>> watchers;
  bool on = true;
  LD now = 0;
  const LD unit = cpu ? 1.L / CLOCKS_PER_SEC : 1e-6L;
  auto pass = [&] {
    if (r.coin(.15)) return;  // no time at all
    const uint64_t d = (uint64_t)r.logu(1, 3e6);
    g_us += d; g_cpu += d;
    now += d * unit;
  };
  std::string trace;
  auto done = [&](Rec& e, LD lapse, LD cycle) {
    e.total += lapse; e.last = cycle;
    e.mn = e.n ? std::min(e.mn, cycle) : cycle; e.mx = e.n ? std::max(e.mx, cycle) : cycle;
    ++e.n;
    e.running = e.paused = false; e.carried = 0;
  };
  for (int k = r.irange(5, 40); k > 0; --k) {
    pass();
    const std::string n = r.pick(names);
    Rec& e = m[n];
    const int op = r.irange(0, 11);
    trace += char('a' + op);
    switch (op) {
      case 0: case 1: case 2:  // start
        s.start(n);
        if (on) { if (!e.paused) e.carried = 0; e.exists = true; e.running = true; e.paused = false; e.start = now; }
        c.count("starts");
        break;
      case 3: case 4: case 5: {  // stop
        if (!e.running && e.exists && e.n) break;  // a stop that nothing started
        if (e.paused) break;
        if (!on) { s.stop(n); break; }
        const bool t = sw_throws([&] { s.stop(n); });
        c.check(t == !e.exists, "stopwatch:stop-unknown", VF_STR(n << " " << trace));
        if (!t && e.running) { done(e, now - e.start, e.carried + now - e.start); c.count("stops"); }
        break;
      }
      case 6: {  // pause
        if (e.exists && !e.running) break;
        if (!on) break;
        const bool t = sw_throws([&] { s.pause(n); });
        c.check(t == !e.exists, "stopwatch:pause-unknown", VF_STR(n << " " << trace));
        if (!t) { e.total += now - e.start; e.carried += now - e.start; e.last = e.carried; e.running = false; e.paused = true; c.count("pauses"); }
        break;
      }
      case 7:
        if (r.coin(.7)) {
          const bool t = on && sw_throws([&] { s.reset(n); });
          if (on) c.check(t == !e.exists, "stopwatch:reset-unknown", VF_STR(n << " " << trace));
          if (on && e.exists) { e = Rec(); e.exists = true; c.count("resets"); }
        } else {
          s.reset_all();
          if (on) for (auto& x : m) if (x.second.exists) { x.second = Rec(); x.second.exists = true; }
          c.count("resets");
        }
        break;
      case 8: if (r.coin(.3)) { if (on) s.turn_off(); else s.turn_on(); on = !on; } break;
      case 9: {  // watcher: silent unless the profiler is enabled
        if (!on) {  // an inactive stopwatch records nothing
          auto ghost = s.watcher("ghost");
          c.check(!s.performance_exists("ghost"), "inactive:watcher-creates-record", "");
          c.count("inactive watchers");
          break;
        }
        auto& w = watchers[n];
        if (!w) { w = std::make_shared<cr::Stopwatch::Watcher>(s.watcher(n)); e.exists = true; }
        if (r.coin(.3)) { if (r.coin()) s.enable_profiler(); else s.disable_profiler(); }
        const bool en = s.profiler_status();
        w->start();
        if (en) { if (!e.paused) e.carried = 0; e.running = true; e.paused = false; e.start = now; }
        pass();
        w->stop();
        if (en) done(e, now - e.start, e.carried + now - e.start);
        c.count(en ? "watchers" : "silent watchers");
        break;
      }
      case 10: {  // report
        std::ostringstream o;
        if (r.coin()) odd_format(r, o);
        const Fmt f(o);
        const int prec = r.irange(0, 9);
        const bool t = on && sw_throws([&] { s.report(n, prec, o); });
        if (!on) { s.report(n, prec, o); c.check(o.str().empty(), "stopwatch:report-when-off", VF_STR(o.str())); break; }
        c.check(t == !e.exists, "stopwatch:report-unknown", VF_STR(n));
        if (t) break;
        c.check(Fmt(o) == f, "stopwatch:report-format", VF_STR("stream formatting changed"));
        if (!e.n) break;
        c.check(o.str().compare(0, n.size(), n) == 0, "stopwatch:report-name", VF_STR(o.str()));
        auto w = words(o.str().substr(n.size()));
        c.count("reports");
        if (!c.check(w.size() == 6, "stopwatch:report-columns", VF_STR(o.str()))) break;
        const LD want[6] = {e.mn * 1e3, e.total * 1e3 / e.n, e.mx * 1e3, e.last * 1e3, (LD)e.n, e.total * 1e3};
        for (int i = 0; i < 6; ++i)
          c.check(std::fabs(std::strtold(w[i].c_str(), nullptr) - want[i]) <= .6L * std::pow(10.L, -prec) + 1e-3L * (i != 4) + 1e-6L * want[i], "stopwatch:report-values", VF_STR("column " << i << " of " << o.str() << " expected " << want[i] << " after " << trace));
        break;
      }
      case 11: {
        std::ostringstream o;
        if (r.coin()) odd_format(r, o);
        const Fmt f(o);
        s.report_all(3, o);
        c.check(Fmt(o) == f, "stopwatch:report_all-format", "");
        for (auto& x : m) {
          const bool there = o.str().find("\n" + x.first + " ") != std::string::npos;
          c.check(there == (on && x.second.exists && x.second.n > 0), "stopwatch:report_all", VF_STR(x.first << " n " << x.second.n << "\n" << o.str()));
        }
        break;
      }
    }
    for (auto& x : m) {
      c.check(s.performance_exists(x.first) == x.second.exists, "stopwatch:exists", VF_STR(x.first << " " << trace));
      if (!x.second.exists) {
        c.check(sw_throws([&] { s.get_total_time(x.first); }) && sw_throws([&] { s.get_min_time(x.first); }) && sw_throws([&] { s.get_max_time(x.first); }) && sw_throws([&] { s.get_average_time(x.first); }) && sw_throws([&] { s.get_last_time(x.first); }) && sw_throws([&] { s.get_time_so_far(x.first); }), "stopwatch:unknown-accepted", VF_STR(x.first << " " << trace));
        c.check(!s.performance_exists(x.first), "stopwatch:getter-creates", "");
        c.count("unknown names");
        continue;
      }
      Rec& y = x.second;
      c.check(feq(s.get_total_time(x.first), y.total), "stopwatch:total", VF_STR(x.first << " got " << s.get_total_time(x.first) << " expected " << y.total << " after " << trace << " cpu " << cpu));
      if (y.running) c.check(feq(s.get_time_so_far(x.first), now - y.start), "stopwatch:so-far", VF_STR("got " << s.get_time_so_far(x.first) << " expected " << now - y.start));
      if (!y.n) continue;
      c.check(Peek::stops(s, x.first) == y.n, "stopwatch:count", VF_STR(x.first << " got " << Peek::stops(s, x.first) << " expected " << y.n));
      c.check(feq(s.get_min_time(x.first), y.mn), "stopwatch:min", VF_STR(x.first << " got " << s.get_min_time(x.first) << " expected " << y.mn << " after " << trace));
      c.check(feq(s.get_max_time(x.first), y.mx), "stopwatch:max", VF_STR(x.first << " got " << s.get_max_time(x.first) << " expected " << y.mx << " after " << trace));
      c.check(feq(s.get_average_time(x.first), y.total / y.n), "stopwatch:average", VF_STR(x.first << " got " << s.get_average_time(x.first) << " expected " << y.total / y.n));
      if (!y.running) c.check(feq(s.get_last_time(x.first), y.last), "stopwatch:last", VF_STR(x.first << " got " << s.get_last_time(x.first) << " expected " << y.last << " after " << trace << " cpu " << cpu));
      c.count("records compared");
    }
  }
  c.sig("stopwatch " + trace.substr(0, 12));
}

VF_SCENARIO(stopwatch_modes, 20, 200) {
  vf::Quiet q;
  cr::Stopwatch s;
  c.check(sw_throws([&] { s.take_time(); }), "stopwatch:no-mode", "");
  c.check(sw_throws([&] { s.start("a"); }), "stopwatch:no-mode-start", "");
  c.check(cr::getProfiler().profiler_status() == false, "profiler:enabled-by-default", "");
  c.check(&cr::getProfiler() == &cr::getProfiler(), "profiler:single", "");
  s.enable_profiler();
  c.check(s.profiler_status(), "profiler:enable", "");
  s.disable_profiler();
  c.check(!s.profiler_status(), "profiler:disable", "");
  c.sig("modes");
}

// ---- verbose callback -----------------------------------------------------------------
namespace {
Problem problem(vf::Rng& r, int kind) {
  Problem p;
  if (kind == KKT || kind == IPOPT ? r.coin(.5) : r.coin(.2)) p = lq_problem(r, 1, 5, 4, 3, kind != KKT && kind != IPOPT);
  else if (r.coin(0.25)) p = mixed_problem(r, 1, 6, true);
  else {
    ProbOpt o;
    o.varying_nu = true; o.nonlin = r.pick({0.1, 0.5, 1.}); o.nonquad = r.pick({0., 1.});
    if (kind != KKT && kind != IPOPT) o.pauto = r.pick({0., 0.2});
    if (kind == INTRO) o.nh = r.irange(0, 2);
    p = nl_problem(r, o);
  }
  if (kind == BOXDDP || kind == BOXFDDP) for (auto& m : p.models) if (m->get_nu() && r.coin(0.8)) random_limits(r, m, 1);
  return p;
}
bool eqd(double a, double b) { return a == b || (a != a && b != b); }
bool same_snap(const Snap& a, const Snap& b) {
  return vf::same(a.xs, b.xs) && vf::same(a.us, b.us) && vf::same(a.fs, b.fs) && a.feas == b.feas && eqd(a.cost, b.cost) && eqd(a.stop, b.stop) && eqd(a.dV, b.dV) && eqd(a.dVexp, b.dVexp) && eqd(a.step, b.step) &&
         eqd(a.preg, b.preg) && eqd(a.dreg, b.dreg) && eqd(a.ffeas, b.ffeas) && eqd(a.gfeas, b.gfeas) && eqd(a.hfeas, b.hfeas) && eqd(a.merit, b.merit) && eqd(a.dPhi, b.dPhi) && eqd(a.dPhiexp, b.dPhiexp) && eqd(a.d[0], b.d[0]) && eqd(a.d[1], b.d[1]) && a.iter == b.iter;
}
// one line of the table against the values of the solver
void judge_line(Ctx& c, const std::string& header, const std::string& line, const Snap& s, int prec, const std::string& who) {
  auto h = words(header), v = words(line);
  if (!c.check(h.size() == v.size(), "verbose:columns:" + who, VF_STR("header '" << header << "' line '" << line << "'"))) return;
  for (size_t i = 0; i < h.size(); ++i) {
    double x;
    double tol = 0;
    if (h[i] == "iter") { c.check(v[i] == std::to_string(s.iter), "verbose:iter:" + who, VF_STR(line)); continue; }
    else if (h[i] == "cost") x = s.cost;
    else if (h[i] == "merit") x = s.merit;
    else if (h[i] == "stop") x = s.stop;
    else if (h[i] == "|grad|") x = std::fabs(s.d[0]);
    else if (h[i] == "preg") x = s.preg;
    else if (h[i] == "dreg") x = s.dreg;
    else if (h[i] == "step") x = s.step, tol = .51e-4;
    else if (h[i] == "||ffeas||") x = s.ffeas;
    else if (h[i] == "||gfeas||") x = s.gfeas;
    else if (h[i] == "||hfeas||") x = s.hfeas;
    else if (h[i] == "dV-exp") x = s.dVexp;
    else if (h[i] == "dV") x = s.dV;
    else if (h[i] == "dPhi-exp") x = s.dPhiexp;
    else if (h[i] == "dPhi") x = s.dPhi;
    else { c.count("unknown columns"); continue; }
    char* end;
    const double y = std::strtod(v[i].c_str(), &end);
    if (x != x) { c.check(y != y, "verbose:nan:" + who, VF_STR(h[i] << " printed " << v[i])); continue; }
    if (!tol) tol = .51 * std::pow(10., -prec) * std::pow(10., std::floor(std::log10(std::max(std::fabs(x), 1e-300)))) * 1.0001;
    c.check(*end == 0 && std::fabs(x - y) <= tol, "verbose:value:" + h[i], VF_STR(who << " " << h[i] << " is " << x << " printed " << v[i] << " precision " << prec));
    c.count("column " + h[i]);
  }
}
struct VerboseProbe : cr::CallbackAbstract {
  std::shared_ptr<cr::CallbackVerbose> v;
  Ctx* c; vf::Rng* r; std::string who, header; bool vary = false;
  size_t calls = 0;
  void operator()(cr::SolverAbstract& s) override {
    if (vary && r->coin(.3)) { v->set_level(cr::VerboseLevel(r->irange(0, 4))); header.clear(); }
    if (vary && r->coin(.3)) { v->set_precision(r->irange(0, 12)); header.clear(); }
    const Snap b = snap(s);
    std::ostringstream o;
    odd_format(*r, std::cout);
    const Fmt f(std::cout);
    std::streambuf* old = std::cout.rdbuf(o.rdbuf());
    (*v)(s);
    std::cout.rdbuf(old);
    c->check(f == Fmt(std::cout), "verbose:format:" + who, VF_STR("formatting of std::cout changed"));
    c->check(same_snap(b, snap(s)), "verbose:changes-solver:" + who, "");
    std::vector<std::string> lines;
    std::istringstream i(o.str());
    for (std::string l; std::getline(i, l);) if (!words(l).empty()) lines.push_back(l);
    const bool head = b.iter % 10 == 0;
    if (!c->check(lines.size() == (head ? 2u : 1u), "verbose:lines:" + who, VF_STR("iter " << b.iter << ":\n" << o.str()))) return;
    if (head) header = lines[0];
    if (!header.empty()) judge_line(*c, header, lines.back(), b, v->get_precision(), who);
    c->count("verbose lines");
    c->count("verbose level " + std::to_string(int(v->get_level())));
    ++calls;
  }
};
// profiler trace: regions nest, and only exceptions leave them open
std::map<std::string, int> judge_trace(Ctx& c, const std::vector<TraceEv>& ev, const std::string& who) {
  struct Frame { std::string n; bool excused; };
  std::vector<Frame> st;
  std::map<std::string, int> stops;
  auto solve = [](const std::string& n) { return n.size() > 7 && n.compare(n.size() - 7, 7, "::solve") == 0; };
  for (auto& e : ev) {
    if (e.type == '!') { for (auto& f : st) f.excused = true; c.count("exceptions in traces"); continue; }
    c.count("profiler events");
    if (e.type == '+') {
      // what an exception has left behind is started over
      for (size_t i = st.size(); i-- > 0;)
        if (st[i].n == e.name) {
          c.check(st[i].excused && !solve(e.name), "profiler:started-twice", VF_STR(who << " " << e.name));
          st.resize(i);
          break;
        }
      st.push_back(Frame{e.name, false});
      continue;
    }
    ++stops[e.name];
    size_t i = st.size();
    while (i > 0 && st[i - 1].n != e.name) --i;
    if (!c.check(i > 0, "profiler:stop-without-start", VF_STR(who << " " << e.name))) continue;
    for (size_t k = i; k < st.size(); ++k)
      c.check(st[k].excused, "profiler:left-open", VF_STR(who << " " << st[k].n << " is not stopped within " << e.name));
    st.resize(i - 1);
  }
  for (auto& f : st) c.check(f.excused && !solve(f.n), "profiler:left-open", VF_STR(who << " " << f.n << " is not stopped"));
  return stops;
}
}  // namespace

VF_SCENARIO(solvers, 1200, 30000) {
  vf::Quiet q;
  const int kind = r.irange(0, NKIND - 1);
  const std::string who = name(kind);
  Problem p = problem(r, kind);
  const int eq = r.irange(0, 2);
  if (kind < INTRO && r.coin(.4)) {
    for (auto& m : p.models)
      if (m->get_nu() && r.coin(.7) && !m->get_ng()) m = std::make_shared<Spoiled>(m, r.logu(.05, 5.), r.coin(.5) ? 0. : r.logu(.01, 100.));
    p.prob = build(p);
  }
  ProbP p2 = build(p);
  SolP a = make(kind, p.prob, eq), b = make(kind, p2, eq);
  const double regmax = r.coin(.3) ? r.logu(1e-9, 1e-2) : 0;
  if (regmax > 0)
    for (auto* s : {&a, &b})
      if (auto d = std::dynamic_pointer_cast<cr::SolverDDP>(*s)) d->set_reg_max(regmax);
  auto cap = std::make_shared<Capture>();
  a->setCallbacks({cap});
  auto probe = std::make_shared<VerboseProbe>();
  probe->v = std::make_shared<cr::CallbackVerbose>(cr::VerboseLevel(r.irange(0, 4)), r.irange(0, 9));
  probe->c = &c; probe->r = &r; probe->who = who; probe->vary = r.coin(.3);
  auto capb = std::make_shared<Capture>();
  b->setCallbacks(r.coin() ? std::vector<std::shared_ptr<cr::CallbackAbstract>>{probe, capb} : std::vector<std::shared_ptr<cr::CallbackAbstract>>{capb, probe});
  cr::Stopwatch& prof = cr::getProfiler();
  const bool profile = r.coin(.8);
  for (int k = r.irange(1, 2); k > 0; --k) {
    Warm w = warm(r, p, -1, r.pick({.3, 1., 3.}));
    const size_t mi = r.irange(1, kind == IPOPT ? 5 : 25);
    const double reg = r.coin(.7) ? NAN : r.logu(1e-9, 1e-1);
    cap->snaps.clear(); capb->snaps.clear(); probe->header.clear();
    Snap sa, sb;
    bool ra, rb, ta, tb;
    ta = vf::throws([&] { ra = a->solve(w.xs, w.us, mi, w.feas, reg); });
    Fake* fake = kind == IPOPT ? nullptr : new Fake();
    g_tick = r.irange(1, 1000);
    if (profile) {
      if (r.coin()) prof.reset_all();
      prof.enable_profiler();
    }
    std::map<std::string, int> before;
    for (auto& n : Peek::names(prof)) before[n] = Peek::stops(prof, n);
    g_ev.clear();
    g_trace = true;
    tb = vf::throws([&] { rb = b->solve(w.xs, w.us, mi, w.feas, reg); });
    g_trace = false;
    prof.disable_profiler();
    delete fake;
    c.check(ta == tb, "diagnostics:throw:" + who, "");
    if (ta || tb) { c.count("solves that throw"); break; }
    sa = snap(*a); sb = snap(*b);
    c.check(ra == rb, "diagnostics:return:" + who, VF_STR(ra << " vs " << rb));
    c.check(same_snap(sa, sb), "diagnostics:result:" + who, VF_STR("iter " << sa.iter << " vs " << sb.iter << " cost " << sa.cost << " vs " << sb.cost));
    if (c.check(cap->snaps.size() == capb->snaps.size(), "diagnostics:iterations:" + who, ""))
      for (size_t i = 0; i < cap->snaps.size(); ++i) {
        if (!c.check(same_snap(cap->snaps[i], capb->snaps[i]), "diagnostics:iterate:" + who, VF_STR("iteration " << i))) break;
        c.count("iterates compared");
        if (kind != IPOPT) c.check(cap->snaps[i].iter == i, "callback:sequence:" + who, VF_STR("call " << i << " is for iteration " << cap->snaps[i].iter));
      }
    if (!cap->snaps.empty() && kind != IPOPT && kind != KKT && (ra || sa.iter >= mi)) c.check(vf::same(cap->snaps.back().xs, sa.xs) && vf::same(cap->snaps.back().us, sa.us), "callback:last:" + who, "");
    if (!profile) { c.check(g_ev.empty() || std::all_of(g_ev.begin(), g_ev.end(), [](const TraceEv& e) { return e.type == '!'; }), "profiler:active-when-disabled", VF_STR(who << " " << (g_ev.empty() ? "" : g_ev[0].name))); continue; }
    auto stops = judge_trace(c, g_ev, who);
    for (auto& n : stops) {
      auto i = before.find(n.first);
      c.check(Peek::stops(prof, n.first) == std::max(0, i == before.end() ? 0 : i->second) + n.second, "profiler:count", VF_STR(who << " " << n.first << " recorded " << Peek::stops(prof, n.first) << " after " << n.second << " more"));
      if (kind != IPOPT) c.check(prof.get_min_time(n.first) >= 0 && prof.get_min_time(n.first) <= prof.get_average_time(n.first) * (1 + 1e-9L) + 1e-5L && prof.get_average_time(n.first) <= prof.get_max_time(n.first) * (1 + 1e-9L) + 1e-5L && prof.get_last_time(n.first) <= prof.get_max_time(n.first) + 1e-5L, "profiler:statistics", VF_STR(who << " " << n.first << " min " << prof.get_min_time(n.first) << " avg " << prof.get_average_time(n.first) << " max " << prof.get_max_time(n.first)));
      c.count("regions seen: " + n.first, n.second);
    }
    std::ostringstream o;
    prof.report_all(3, o);
    c.check(o.str().find("PROFILING") != std::string::npos, "profiler:report", "");
    if (r.coin(.1)) for (auto& n : Peek::names(prof)) c.check(o.str().find("\n" + n + " ") != std::string::npos || Peek::stops(prof, n) == 0, "profiler:report-names", VF_STR(n));
    c.count("profiled solves");
    c.count("profiled solves of " + who);
    if (!ra && sa.iter < mi) c.count("solves that gave up");
    c.sig(VF_STR(who << w.kind << ra << sa.iter << int(probe->v->get_level()) << p.models.size()).operator std::string());
  }
}

VF_SCENARIO(verbose_settings, 60, 600) {
  vf::Quiet q;
  cr::CallbackVerbose v;
  c.check(v.get_level() == cr::_4 && v.get_precision() == 3, "verbose:defaults", "");
  for (int k = 0; k < 10; ++k) {
    const int l = r.irange(0, 4), p = r.irange(0, 15), bad = -r.irange(1, 100);
    v.set_level(cr::VerboseLevel(l));
    v.set_precision(p);
    c.check(vf::throws([&] { v.set_precision(bad); }), "verbose:negative-precision", VF_STR(bad));
    c.check(vf::throws([&] { cr::CallbackVerbose w(cr::_1, bad); }), "verbose:negative-precision-ctor", VF_STR(bad));
    c.check(v.get_level() == l && v.get_precision() == p, "verbose:settings", VF_STR(v.get_level() << " " << v.get_precision()));
  }
  c.sig("settings");
}

// ---- printing --------------------------------------------------------------------------
namespace {
template <class T>
void print_twice(Ctx& c, vf::Rng& r, const T& m, const std::string& what) {
  std::ostringstream a, b;
  a << m; b << m;
  c.check(a.str() == b.str(), "print:repeatable:" + what, VF_STR(a.str() << " vs " << b.str()));
  c.check(!a.str().empty(), "print:empty:" + what, "");
  odd_format(r, a);
  const Fmt f(a);
  a << m;
  c.check(Fmt(a) == f, "print:format:" + what, VF_STR(b.str()));
  c.count("printed " + what);
}
}  // namespace
VF_SCENARIO(printing, 400, 6000) {
  vf::Quiet q;
  std::string kd;
  StateP st = random_dyn_state(r);
  Problem p = mixed_problem(r, 1, 5, true);
  std::vector<ActDP> before;
  VV xs = random_xs(r, p), us = random_us(r, p);
  auto ev = [&](const ActP& m, const V& x, const V& u) { return m->get_nu() ? eval(m, x, u) : evalT(m, x); };
  for (size_t i = 0; i < p.models.size(); ++i) before.push_back(ev(p.models[i], xs[i], us[i]));
  print_twice(c, r, *p.prob, "problem");
  for (auto& m : p.models) print_twice(c, r, *m, "action"), print_twice(c, r, *m->get_state(), "state");
  for (size_t i = 0; i < p.models.size(); ++i)
    c.check(data_diff(before[i], ev(p.models[i], xs[i], us[i]), true, true) == 0, "print:changes-model", "");
  const int nact = r.irange(1, int(st->get_nv()));
  DiffP d = random_diffsum(r, st, nact, true, true, &kd);
  print_twice(c, r, *d, "diff");
  auto ctrl = make_control(r.irange(0, 3), nact);
  print_twice(c, r, *ctrl, "control");
  print_twice(c, r, *make_integrated(d, ctrl, r.pick({0, 2, 3, 4}), .1, true), "integrated");
  if (auto s = std::dynamic_pointer_cast<cr::DifferentialActionModelAbstract>(d)) print_twice(c, r, *s->get_state(), "state");
  print_twice(c, r, *make_actv(r, 3, r.irange(0, NACTV - 1)).m, "activation");
  auto unicycle = std::make_shared<cr::ActionModelUnicycle>();
  print_twice(c, r, *unicycle, "unicycle");
  print_twice(c, r, cr::getProfiler().profiler_status(), "status");
  c.sig("print " + kd);
}

VF_MAIN("C30")
