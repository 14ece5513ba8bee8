// C01: a feasible verdict is true, at every callback and on return.
#include "solv.hpp"
using namespace solv;

static void judge(vf::Ctx& c, const Problem& p, const std::string& who, const char* when, const VV& xs, const VV& us, bool feas, double tol) {
  if (!c.check(sizes_ok(p, xs, us), "sizes:" + who, std::string(when))) return;
  c.check(all_finite(xs) && all_finite(us), "finite:" + who, std::string(when));
  if (!feas) { c.count("infeasible verdicts seen"); return; }
  VV f = gaps(p, xs, us);
  double s = 1;
  for (auto& x : xs) s = std::max(s, vf::amax(x));
  const double e = norm_of(f, false) / s;
  c.check(e <= tol, "false-feasible:" + who, VF_STR(when << " gap " << e << " x0 gap " << vf::amax(f[0])));
  c.maxi("largest gap of a feasible verdict " + who, e);
  c.count("feasible verdicts checked");
}

static Problem problem(vf::Rng& r, vf::Ctx& c, int kind, std::string& what) {
  const bool box = kind == BOXDDP || kind == BOXFDDP;
  Problem p;
  if (kind == KKT) {
    p = lq_problem(r, 1, 6, 4, 3, true);
    what = "lq";
  } else {
    switch (r.irange(0, 3)) {
      case 0: p = lq_problem(r, 1, 8, 5, 4, true); what = "lq"; break;
      case 1: p = mixed_problem(r, 1, 6, true); what = "mixed"; break;
      default: {
        ProbOpt o;
        o.varying_nu = true;
        o.nonlin = r.pick({0.1, 0.5, 1.}); o.nonquad = r.pick({0., 0.5, 2.});
        if (kind == INTRO && r.coin()) o.nh = 2;
        o.pauto = r.pick({0., 0.2});
        p = nl_problem(r, o);
        what = "nl";
      }
    }
  }
  if (box) for (auto& m : p.models) if (r.coin(0.8)) random_limits(r, m, r.irange(0, 1));
  return p;
}

VF_SCENARIO(solves, 1600, 40000) {
  vf::Quiet q;
  const int kind = r.irange(0, 5);
  std::string what;
  Problem p = problem(r, c, kind, what);
  SolP s = make(kind, p.prob, r.irange(0, 2));
  std::string who = name(kind);
  const double tol = kind == KKT ? 1e-6 : 1e-9;
  auto cb = std::make_shared<Capture>();
  if (r.coin(0.9)) s->setCallbacks({cb});
  if (auto d = std::dynamic_pointer_cast<cr::SolverDDP>(s)) {
    if (r.coin(0.3)) { std::vector<double> a; double x = 1; for (int i = r.irange(1, 8); i > 0; --i) { a.push_back(x); x *= r.uni(0.2, 0.9); } d->set_alphas(a); }
    if (r.coin(0.2)) { std::vector<double> a{r.uni(0.3, 0.9)}; a.push_back(a[0] * 0.5); d->set_alphas(a); c.count("no full step in list"); }
    if (r.coin(0.2)) s->set_th_acceptstep(r.uni(0.01, 1.));
  }
  const int solves = r.irange(1, 3);
  for (int k = 0; k < solves; ++k) {
    Warm w = warm(r, p, -1, r.pick({0.2, 1., 3.}));
    const double reg = r.coin(0.7) ? NAN : r.logu(1e-9, 1e3);
    cb->snaps.clear();
    s->solve(w.xs, w.us, r.irange(1, r.coin(0.3) ? 2 : 25), w.feas, reg);
    for (auto& n : cb->snaps) judge(c, p, who, "callback", n.xs, n.us, n.feas, tol);
    judge(c, p, who, "return", s->get_xs(), s->get_us(), s->get_is_feasible(), tol);
    c.count("solves " + who);
    c.count("warm " + w.kind);
    std::ostringstream o;
    o << who << what << w.kind << p.models.size() << p.state->get_ndx() << cb->snaps.size();
    for (auto& n : cb->snaps) o << n.feas << int(-std::log2(n.step));
    c.sig(o.str());
    if (c.index < 3) c.sample(who + " on " + what + " from " + w.kind + ": " + std::to_string(cb->snaps.size()) + " iterations, feasible=" + std::to_string(s->get_is_feasible()));
    if (r.coin(0.4)) {  // a moved initial state makes an old feasible trajectory infeasible
      p.x0 = random_x(r, p.state);
      p.prob->set_x0(p.x0);
      if (r.coin(0.5)) {
        Warm v; v.xs = s->get_xs(); v.us = s->get_us();
        cb->snaps.clear();
        s->solve(v.xs, v.us, r.irange(1, 10), false, NAN);
        for (auto& n : cb->snaps) judge(c, p, who, "callback-mpc", n.xs, n.us, n.feas, tol);
        judge(c, p, who, "return-mpc", s->get_xs(), s->get_us(), s->get_is_feasible(), tol);
        c.count("re-solves from moved initial states");
      }
    }
  }
}

// KKT takes linearised steps: on nonlinear dynamics only what it returns as converged
VF_SCENARIO(kkt_nonlinear, 300, 8000) {
  vf::Quiet q;
  ProbOpt o;
  o.varying_nu = true; o.nonlin = 0.3; o.Tmax = 5;
  Problem p = nl_problem(r, o);
  SolP s = make(KKT, p.prob);
  auto cb = std::make_shared<Capture>();
  s->setCallbacks({cb});
  Warm w = warm(r, p, -1, 0.5);
  const bool ok = s->solve(w.xs, w.us, 40, w.feas);
  for (auto& n : cb->snaps) judge(c, p, "KKT-nonlinear", "callback", n.xs, n.us, n.feas, 1e-4);
  if (ok) { judge(c, p, "KKT-converged", "return", s->get_xs(), s->get_us(), true, 1e-3); c.count("nonlinear KKT convergences"); }
}

VF_SCENARIO(ipopt, 60, 2500) {
  vf::Quiet q;
  std::string what;
  Problem p = r.coin(0.4) ? lq_problem(r, 1, 6, 4, 3, true) : nl_problem(r, ProbOpt());
  SolP s = make(IPOPT, p.prob);
  Warm w = warm(r, p);
  const bool ok = s->solve(w.xs, w.us, r.coin(0.7) ? 100 : r.irange(1, 4), w.feas);
  judge(c, p, "Ipopt", "return", s->get_xs(), s->get_us(), s->get_is_feasible(), 1e-6);
  if (ok) { judge(c, p, "Ipopt-converged", "return", s->get_xs(), s->get_us(), true, 1e-6); c.count("Ipopt convergences"); }
  c.sig(w.kind + std::to_string(p.models.size()) + std::to_string(ok));
}
VF_MAIN("C01")
