// C17: multi-threaded evaluation = serial evaluation, under ThreadSanitizer and with
// the loops' schedule perturbed (src/gomp_shim.cpp).
#include "solv.hpp"
#include "gen3.hpp"
#include "crocoddyl/core/numdiff/action.hpp"
#include "crocoddyl/core/numdiff/diff-action.hpp"
#include "crocoddyl/core/solvers/ipopt/ipopt-iface.hpp"
using namespace solv;
extern "C" {
void vf_omp_seed(uint64_t);
void vf_omp_mode(int);
uint64_t vf_omp_regions();
uint64_t vf_omp_threads();
uint64_t vf_omp_sched();
}
namespace {
// nodes drawn from very few models, so that most of them are shared
Problem shared_problem(vf::Rng& r, std::string& kinds, bool managers) {
  Problem p;
  const bool dyn = r.coin(0.6);
  p.state = dyn ? random_dyn_state(r) : r.coin(0.3) ? StateP(std::make_shared<StateSO3>(r.irange(0, 1))) : StateP(std::make_shared<cr::StateVector>(r.irange(1, 6)));
  const int T = r.irange(2, 12), nm = r.irange(1, 3);
  std::vector<ActP> pool;
  for (int i = 0; i < nm; ++i) {
    std::string k;
    ActP m;
    const int what = r.irange(0, 5);
    if (dyn && (managers || what < 2)) {
      const int nact = r.irange(1, int(p.state->get_nv()));
      const int ik = r.pick({0, 2, 3, 4}), ck = r.irange(0, 3);
      DiffP d = random_diffsum(r, p.state, nact, managers, true, &k);
      k = "sum" + k;
      if (!managers && what == 0) { d = std::make_shared<cr::DifferentialActionModelNumDiff>(d, r.coin()); k = "dnum" + k; }
      m = make_integrated(d, make_control(ck, nact), ik, r.pick({0.01, 0.1}), r.coin());
      k += "i" + std::to_string(ik) + "c" + std::to_string(ck);
    } else {
      m = any_action(r, p.state, r.pick({1, 2, 2, 3, 6}), &k, !managers && r.coin(0.5));
      if (what == 2) { m = std::make_shared<cr::ActionModelNumDiff>(m, r.coin()); k = "num" + k; }
    }
    pool.push_back(m);
    kinds += k + ",";
  }
  for (int i = 0; i < T; ++i) p.models.push_back(r.pick(pool));
  p.terminal = pool[0]->get_ng_T() == pool[0]->get_ng() && r.coin() ? pool[0] : any_action(r, p.state, 1, nullptr, false);
  p.x0 = random_x(r, p.state);
  p.prob = build(p);
  return p;
}
struct Regions {  // what the runtime stand-in saw
  uint64_t n, t, s;
  Regions() : n(vf_omp_regions()), t(vf_omp_threads()), s(vf_omp_sched()) {}
  void report(vf::Ctx& c, const char* what) const {
    c.count(std::string("parallel regions: ") + what, vf_omp_regions() - n);
    c.count("threads forked", vf_omp_threads() - t);
    if (vf_omp_regions() > n) c.sig("sched" + std::to_string(vf_omp_sched()));
  }
};
int threads(vf::Ctx& c, vf::Rng& r, const ProbP& p) {
  vf_omp_seed(r.irange(1, 1 << 30));
  vf_omp_mode(r.coin(0.25) ? 1 : 0);
  const int n = r.irange(2, 8);
  p->set_nthreads(n);
  c.check(p->get_nthreads() == size_t(n), "get_nthreads");
  c.count("problems with " + std::to_string(n) + " threads");
  return n;
}
}  // namespace

static void evaluate(vf::Ctx& c, vf::Rng& r, bool managers) {
  vf::Quiet q;
  std::string kinds;
  Problem p = shared_problem(r, kinds, managers);
  ProbP par = p.prob, ser = build(p);
  ser->set_nthreads(1);
  const size_t T = p.models.size();
  std::set<const void*> uniq;
  for (auto& m : p.models) uniq.insert(m.get());
  if (uniq.size() < T) c.count("problems with shared models");
  if (p.terminal == p.models[0]) c.count("problems whose terminal model is also a running one");
  VV xs, us;
  std::string ops;
  for (int k = 0; k < 5; ++k) {
    const int n = threads(c, r, par);
    Regions g;
    if (k == 0 || r.coin(0.6)) { xs = random_xs(r, p); us = random_us(r, p); }
    const int op = k == 0 ? 0 : r.irange(0, 2);
    ops += "cdq"[op];
    auto say = [&]() { std::ostringstream s; s << kinds << " T " << T << " threads " << n << " after " << ops; return s.str(); };
    if (op < 2) {
      const double a = op == 0 ? ser->calc(xs, us) : (ser->calc(xs, us), ser->calcDiff(xs, us));
      const double b = op == 0 ? par->calc(xs, us) : (par->calc(xs, us), par->calcDiff(xs, us));
      c.check(std::abs(a - b) <= 1e-12 * (1 + std::abs(a)), "cost", VF_STR(say() << " " << a << " vs " << b));
      for (size_t t = 0; t < T; ++t) {
        const double e = data_diff(ser->get_runningDatas()[t], par->get_runningDatas()[t], op == 1);
        c.check(e <= 1e-12, op ? "calcDiff:node" : "calc:node", VF_STR("node " << t << " of " << say() << " differs by " << e));
        c.count("nodes compared");
      }
      c.check(data_diff(ser->get_terminalData(), par->get_terminalData(), false, false) <= 1e-12, "terminal", VF_STR(say()));
      if (op) c.check(vf::relerr(ser->get_terminalData()->Lx, par->get_terminalData()->Lx) <= 1e-12 && vf::relerr(ser->get_terminalData()->Lxx, par->get_terminalData()->Lxx) <= 1e-12, "terminal-diff", VF_STR(say()));
      g.report(c, op ? "calcDiff" : "calc");
    } else {
      VV qx(xs.begin(), xs.end() - 1);
      for (auto& x : qx) x.tail(p.state->get_nv()).setZero();
      const VV qx0 = qx;
      VV ua = us, ub = us;
      for (auto& u : ua) u.setZero();
      ub = ua;
      ser->quasiStatic(ua, qx);
      par->quasiStatic(ub, qx);
      bool same = vf::same(qx, qx0);
      for (size_t t = 0; t < T; ++t) same = same && (vf::relerr(ua[t], ub[t]) <= 1e-9 || !vf::finite(ua[t]));
      c.check(same, "quasiStatic", VF_STR(say()));
      g.report(c, "quasiStatic");
    }
  }
  c.sig(kinds + ops);
  if (c.index < 3) c.sample(kinds + " " + ops + " T=" + std::to_string(T));
}
VF_SCENARIO(shared_models, 260, 12000) { evaluate(c, r, false); }
VF_SCENARIO(constraint_managers, 60, 3000) { evaluate(c, r, true); }

// whole solves: the iterates do not depend on the number of threads
VF_SCENARIO(solvers, 200, 8000) {
  vf::Quiet q;
  Problem p;
  std::string kind;
  if (r.coin(0.3)) { p = lq_problem(r, 2, 9, 5, 4, false, 2); kind = "lq"; }
  else {
    ProbOpt o;
    o.Tmin = 2; o.Tmax = 9; o.nh = r.coin(0.5) ? 2 : 0; o.ng = r.coin(0.3) ? 2 : 0; o.varying_nu = r.coin(); o.pauto = r.pick({0., 0.15});
    p = nl_problem(r, o); kind = "nl" + std::to_string(o.nh) + std::to_string(o.ng);
  }
  const int k = r.irange(0, NKIND - 1), eq = r.irange(0, 2);
  if (k == KKT) { for (auto& m : p.models) if (m->get_nu() == 0) return; }
  if ((k == BOXDDP || k == BOXFDDP) && r.coin(0.7)) { std::set<const void*> seen; for (auto& m : p.models) if (m->get_nu() && seen.insert(m.get()).second) random_limits(r, m, 0); }
  ProbP ser = build(p), par = p.prob;
  ser->set_nthreads(1);
  SolP a = make(k, ser, eq), b = make(k, par, eq);
  auto ca = std::make_shared<Capture>(), cb = std::make_shared<Capture>();
  a->setCallbacks({ca}); b->setCallbacks({cb});
  for (int round = r.irange(1, 2); round > 0; --round) {
    const int n = threads(c, r, par);
    Warm w = warm(r, p, -1, 0.4);
    const int iters = r.irange(1, 8);
    auto run = [&](const SolP& s) { try { return int(s->solve(w.xs, w.us, iters, w.feas)); } catch (const std::exception&) { return 2; } };
    Regions g;
    const int ra = run(a), rb = run(b);
    g.report(c, name(k));
    auto say = [&]() { std::ostringstream s; s << name(k) << " " << kind << " " << w.kind << " threads " << n << " iterations " << iters; return s.str(); };
    c.check(ra == rb && a->get_iter() == b->get_iter(), "solve:verdict", VF_STR(say() << ": " << ra << "/" << a->get_iter() << " vs " << rb << "/" << b->get_iter()));
    const bool fin = all_finite(a->get_xs()) && all_finite(a->get_us());
    if (fin) {
      c.check(vf::relerr(a->get_xs(), b->get_xs()) < 1e-8 && vf::relerr(a->get_us(), b->get_us()) < 1e-8, "solve:result", VF_STR(say()));
      c.check(std::abs(a->get_cost() - b->get_cost()) <= 1e-8 * (1 + std::abs(a->get_cost())), "solve:cost", VF_STR(say()));
      c.check(ca->snaps.size() == cb->snaps.size(), "solve:iterations", VF_STR(say()));
      for (size_t i = 0; i < std::min(ca->snaps.size(), cb->snaps.size()); ++i) {
        const Snap &s = ca->snaps[i], &t = cb->snaps[i];
        c.check(vf::relerr(s.xs, t.xs) < 1e-8 && vf::relerr(s.us, t.us) < 1e-8 && vf::relerr(s.fs, t.fs) < 1e-8, "solve:iterate", VF_STR(say() << " at " << i));
        c.check(std::abs(s.ffeas - t.ffeas) <= 1e-8 * (1 + std::abs(s.ffeas)) && std::abs(s.hfeas - t.hfeas) <= 1e-8 * (1 + std::abs(s.hfeas)), "solve:feasibility", VF_STR(say() << " at " << i));
        c.count("iterates compared");
      }
    }
    ca->snaps.clear(); cb->snaps.clear();
    c.sig(name(k) + kind + w.kind + std::to_string(n) + std::to_string(eq));
  }
}

// the callbacks handed to Ipopt
VF_SCENARIO(nlp, 150, 6000) {
  vf::Quiet q;
  ProbOpt o;
  o.varying_nu = true; o.numin = 1; o.Tmin = 2; o.Tmax = 9; o.pauto = 0.1; o.nonlin = 0.6; o.nonquad = 0.5;
  Problem p = nl_problem(r, o);
  ProbP ser = build(p), par = p.prob;
  ser->set_nthreads(1);
  Ipopt::SmartPtr<cr::IpoptInterface> a = new cr::IpoptInterface(ser), b = new cr::IpoptInterface(par);
  int n, m, nj, nh;
  Ipopt::TNLP::IndexStyleEnum st;
  a->get_nlp_info(n, m, nj, nh, st);
  b->get_nlp_info(n, m, nj, nh, st);
  const VV bx = random_xs(r, p), bu = random_us(r, p);
  for (auto* f : {&*a, &*b}) { f->set_xs(bx); f->set_us(bu); }
  std::string order;
  V z = r.vec(n, 0.4);
  for (int k = 0; k < 8; ++k) {
    const int nt = threads(c, r, par);
    Regions g;
    const bool nx = k == 0 || r.coin(0.5);
    if (nx) z = r.vec(n, 0.4);
    const int what = r.irange(0, 4);
    order += "fgdjh"[what];
    V va, vb;
    auto ev = [&](cr::IpoptInterface& f, V& v) {
      if (what == 0) { v.setZero(1); f.eval_f(n, z.data(), nx, v[0]); }
      else if (what == 1) { v.setZero(m); f.eval_g(n, z.data(), nx, m, v.data()); }
      else if (what == 2) { v.setZero(n); f.eval_grad_f(n, z.data(), nx, v.data()); }
      else if (what == 3) { v.setZero(nj); f.eval_jac_g(n, z.data(), nx, m, nj, NULL, NULL, v.data()); }
      else { v.setZero(nh); V l = V::Constant(m, 0.3); f.eval_h(n, z.data(), nx, 0.7, m, l.data(), true, nh, NULL, NULL, v.data()); }
    };
    ev(*a, va); ev(*b, vb);
    c.check(vf::relerr(va, vb) <= 1e-12, std::string("nlp:") + "fgdjh"[what], VF_STR(order << " threads " << nt));
    c.count(std::string("nlp callbacks ") + "fgdjh"[what]);
    g.report(c, "nlp");
  }
  c.sig(order + std::to_string(n));
}

// the number of threads that a problem reports and uses
VF_SCENARIO(configuration, 60, 1000) {
  vf::Quiet q;
  ProbOpt o; o.Tmin = 2; o.numin = 1;
  Problem p = nl_problem(r, o);
  const VV xs = random_xs(r, p), us = random_us(r, p);
  vf_omp_mode(0);
  c.check(p.prob->get_nthreads() == CROCODDYL_WITH_NTHREADS, "config:default");
  auto used = [&](size_t n, const char* key) {
    Regions g;
    p.prob->calc(xs, us);
    const uint64_t t = vf_omp_threads() - g.t;
    c.check(p.prob->get_nthreads() == n && t == (n > 1 ? n : 0), key, VF_STR("reports " << p.prob->get_nthreads() << ", used " << t << ", expected " << n));
    c.count("configurations tried");
  };
  used(CROCODDYL_WITH_NTHREADS, "config:default-used");
  for (int k = 0; k < 4; ++k) {
    const int n = r.irange(-1, 8);
    p.prob->set_nthreads(n);
    used(n < 1 ? CROCODDYL_WITH_NTHREADS : size_t(n), "config:set");
    cr::ShootingProblem copy(*p.prob);
    c.check(copy.get_nthreads() == p.prob->get_nthreads(), "config:copy");
  }
  cr::enableMultithreading() = false;
  c.check(build(p)->get_nthreads() == 1, "config:disabled-new");
  p.prob->set_nthreads(r.irange(2, 8));
  used(1, "config:disabled");
  cr::enableMultithreading() = true;
  c.sig(VF_STR("config" << p.models.size()));
}
VF_MAIN("C17")
