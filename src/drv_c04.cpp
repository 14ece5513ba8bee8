// C04: every solve obeys the acceptance, step, regularisation and stopping rules.
// The solvers run with their virtual steps intercepted; an online checker of the
// recorded trace decides.
#include "solv.hpp"
using namespace solv;

struct Ev4 {
  enum T { DIR, DIRFAIL, TRY, TRYFAIL, CB } t;
  double a = 0, dV = 0, preg = 0, dreg = 0, cost_try = 0, hfeas_try = 0;
  Eigen::Vector2d d;     // improvement model after the trial
  VV xs_try, us_try;
  int cb = 0;
  Snap s;
};
struct Log { std::vector<Ev4> ev; };

template <class S>
struct Traced : Open<S> {
  Traced(ProbP p, Log& l) : Open<S>(p), log(l) {}
  void computeDirection(const bool recalc) override {
    Ev4 e;
    e.t = Ev4::DIR;
    try { S::computeDirection(recalc); } catch (...) { e.t = Ev4::DIRFAIL; e.preg = this->preg_; e.dreg = this->dreg_; log.ev.push_back(e); throw; }
    e.preg = this->preg_; e.dreg = this->dreg_;
    log.ev.push_back(e);
  }
  double tryStep(const double a) override {
    Ev4 e;
    e.t = Ev4::TRY;
    e.a = a;
    try {
      e.dV = S::tryStep(a);
    } catch (...) { e.t = Ev4::TRYFAIL; log.ev.push_back(e); throw; }
    e.d = this->d_; e.xs_try = this->xs_try_; e.us_try = this->us_try_; e.cost_try = this->cost_try_; e.hfeas_try = this->get_hfeas_try();
    log.ev.push_back(e);
    in_try = true;
    return e.dV;
  }
  const Eigen::Vector2d& expectedImprovement() override {
    const Eigen::Vector2d& d = S::expectedImprovement();
    if (in_try && !log.ev.empty() && log.ev.back().t == Ev4::TRY) log.ev.back().d = d;
    in_try = false;
    return d;
  }
  Log& log;
  bool in_try = false;
};
struct CB4 : cr::CallbackAbstract {
  CB4(Log& l, int i) : log(l), id(i) {}
  void operator()(cr::SolverAbstract& s) override { Ev4 e; e.t = Ev4::CB; e.cb = id; e.s = snap(s); log.ev.push_back(e); }
  Log& log;
  int id;
};

struct Settings {
  double thstop, thacc, thneg, thgrad, stepdec, stepinc, regmin, regmax, inc, dec, thfeas = 0;
  std::vector<double> alphas;
};

template <class S>
static void one(vf::Ctx& c, vf::Rng& r, int kind, bool intro, bool fddp, bool nonconvex) {
  Problem p;
  const bool box = kind == BOXDDP || kind == BOXFDDP;
  if (r.coin(0.3)) p = lq_problem(r, 1, 6, 4, 3, true);
  else {
    ProbOpt o;
    o.varying_nu = true; o.nonlin = r.pick({0.2, 1., 2.}); o.nonquad = r.pick({0., 1., 4.});
    if (!box) o.pauto = r.pick({0., 0.2});
    if (intro) o.nh = r.irange(0, 2);
    p = nl_problem(r, o);
  }
  if (nonconvex) for (auto& m : p.models) if (auto a = std::dynamic_pointer_cast<ActNL>(m)) if (r.coin(0.7)) { const double k = r.uni(0.2, 3.); a->l().W.diagonal().array() -= k; }
  if (box) for (auto& m : p.models) if (r.coin(0.8)) random_limits(r, m, 1);
  const std::string who = name(kind);
  Log log;
  auto s = std::make_shared<Traced<S>>(p.prob, log);
  Settings t;
  t.alphas = s->get_alphas();
  if (r.coin(0.3)) {
    t.alphas.clear();
    double x = 1;
    for (int i = r.irange(1, 12); i > 0; --i) { t.alphas.push_back(x); x *= r.uni(0.2, 0.95); }
    s->set_alphas(t.alphas);
  }
  if (r.coin(0.3)) s->set_th_acceptstep(r.uni(0.01, 1.));
  if (r.coin(0.3)) s->set_th_stop(r.logu(1e-10, 1e-1));
  // also exactly at a step length that will be taken
  const std::vector<double>& al = s->get_alphas();
  if (r.coin(0.4)) s->set_th_stepdec(r.coin(0.4) ? al[std::min<size_t>(al.size() - 1, r.irange(0, 2))] : r.uni(0.05, 1.));
  if (r.coin(0.4)) s->set_th_stepinc(r.coin(0.4) ? al[std::min<size_t>(al.size() - 1, r.irange(0, 2))] : r.uni(0.001, 0.6));
  if (r.coin(0.3)) s->set_reg_incfactor(r.uni(1.5, 50));
  if (r.coin(0.3)) s->set_reg_decfactor(r.uni(1.5, 50));
  if (r.coin(0.3)) s->set_reg_min(r.coin(0.2) ? 0. : r.logu(1e-9, 1e-3));
  if (r.coin(0.3)) s->set_reg_max(r.logu(1e-1, 1e6));
  if (r.coin(0.1)) s->set_th_grad(r.logu(1e-12, 1e-2));
  t.thstop = s->get_th_stop(); t.thacc = s->get_th_acceptstep(); t.thgrad = s->get_th_grad(); t.stepdec = s->get_th_stepdec(); t.stepinc = s->get_th_stepinc();
  t.regmin = s->get_reg_min(); t.regmax = s->get_reg_max(); t.inc = s->get_reg_incfactor(); t.dec = s->get_reg_decfactor();
  t.thneg = 0;
  if (fddp) if (auto f = std::dynamic_pointer_cast<cr::SolverFDDP>(std::static_pointer_cast<cr::SolverAbstract>(s))) {
    if (r.coin(0.3)) f->set_th_acceptnegstep(r.uni(0., 4.));
    t.thneg = f->get_th_acceptnegstep();
  }
  auto in = std::dynamic_pointer_cast<cr::SolverIntro>(std::static_pointer_cast<cr::SolverAbstract>(s));
  if (in) {
    in->set_equality_solver(static_cast<cr::EqualitySolverType>(r.irange(0, 2)));
    if (r.coin(0.3)) in->set_rho(r.uni(0.05, 0.9));
    if (r.coin(0.3)) in->set_zero_upsilon(r.coin());
    t.thfeas = in->get_th_feas();
  }
  const int ncb = r.irange(1, 3);
  std::vector<std::shared_ptr<cr::CallbackAbstract>> cbs;
  for (int i = 0; i < ncb; ++i) cbs.push_back(std::make_shared<CB4>(log, i));
  if (r.coin(0.2)) cbs.push_back(cbs[0]);  // the same callback twice
  s->setCallbacks(cbs);
  for (int k = r.irange(1, 2); k > 0; --k) {
    log.ev.clear();
    Warm w = warm(r, p, -1, r.pick({0.3, 1., 4.}));
    const Warm f = full(p, w);
    double reg = r.coin(0.6) ? NAN : (r.coin(0.2) ? 0. : std::min(t.regmax, std::max(t.regmin, r.logu(1e-9, 1e2))));
    const size_t maxit = r.irange(0, 15);
    const double ups0 = in ? (in->get_zero_upsilon() ? 0. : in->get_upsilon()) : 0.;
    const bool ret = s->solve(w.xs, w.us, maxit, w.feas, reg);
    c.count("solves " + who);
    // ---- replay
    double preg = std::isnan(reg) ? t.regmin : reg;
    VV xs = f.xs, us = f.us;
    bool feas = w.feas, was = false, ended = false, expect_ret = false, ambiguous = false;
    double cost = cost_of(p, xs, us), ups = ups0, stop = 0;
    size_t i = 0, it = 0;
    const auto& ev = log.ev;
    std::ostringstream sg;
    sg << who << w.kind;
    auto near = [](double a, double b) { return vf::relerr(a, b) < 1e-9 || std::abs(a - b) <= 1e-12 * std::max(std::abs(a), std::abs(b)); };
    auto incr = [&](double v) { v = v == 0 ? std::max(t.regmin, std::numeric_limits<double>::epsilon()) : v * t.inc; return std::min(v, t.regmax); };
    while (i < ev.size() && !ended) {
      if (!c.check(it < maxit, "too-many-iterations:" + who)) break;
      // search directions
      bool dirok = false;
      while (i < ev.size() && (ev[i].t == Ev4::DIR || ev[i].t == Ev4::DIRFAIL)) {
        c.check(near(ev[i].preg, preg), "regularisation-used:" + who, VF_STR("iter " << it << " preg " << ev[i].preg << " expected " << preg));
        c.check(ev[i].preg == ev[i].dreg, "preg-dreg:" + who);
        if (ev[i].t == Ev4::DIR) { dirok = true; ++i; break; }
        c.count("directions failed");
        preg = incr(ev[i].preg);
        ++i;
        if (preg == t.regmax) { ended = true; expect_ret = false; break; }
      }
      if (ended) { c.count("ended at the largest regularisation"); break; }
      if (!c.check(dirok, "trace:" + who, VF_STR("event " << i << " of " << ev.size()))) break;
      preg = ev[i - 1].preg;
      // line search
      size_t na = 0;
      bool accepted = false;
      double step = 0, dV = 0;
      Eigen::Vector2d d(0, 0);
      bool have_d = false;
      const VV xs0 = xs, us0 = us;
      const double cost0 = cost;
      const bool feas0 = feas;
      double hf = 0, gf = 0, hft = 0;
      if (in) constraint_violation(p, xs0, us0, false, gf, hf);
      while (i < ev.size() && (ev[i].t == Ev4::TRY || ev[i].t == Ev4::TRYFAIL)) {
        const Ev4& e = ev[i++];
        if (!c.check(na < t.alphas.size() && e.a == t.alphas[na], "step-list:" + who, VF_STR("trial " << na << " uses " << e.a))) break;
        if (!c.check(!accepted, "trial-after-acceptance:" + who, VF_STR("iter " << it))) break;
        ++na;
        step = e.a;
        c.count("trials");
        if (e.t == Ev4::TRYFAIL) { c.count("trials failed"); continue; }
        dV = e.dV; d = e.d; have_d = true; hft = e.hfeas_try;
        c.check(near(dV, cost0 - e.cost_try), "reduction:" + who, VF_STR("iter " << it << " dV " << dV << " costs " << cost0 - e.cost_try));
        const double ex = step * (d[0] + 0.5 * step * d[1]);
        bool acc = false, border = false;
        auto gt = [&](double a, double b) { if (std::abs(a - b) <= 1e-11 * std::max({1., std::abs(a), std::abs(b)})) border = true; return a > b; };
        if (intro) {
          const double u = in->get_upsilon();  // fixed during one line search, but only known after the solve
          (void)u;
          acc = false; border = true;          // judged at the callback below
        } else if (fddp) {
          if (std::abs(ex) < 1e-13) border = true;
          if (ex >= 0) acc = std::abs(d[0]) < t.thgrad || gt(dV, t.thacc * ex);
          else acc = !feas0 && gt(dV, t.thneg * ex);
        } else {
          if (std::abs(ex) < 1e-13) border = true;
          acc = ex >= 0 && (std::abs(d[0]) < t.thgrad || !feas0 || gt(dV, t.thacc * ex));
        }
        // what the solver did: the last trial before the callback was accepted iff the candidate moved to it
        const bool last = !(i < ev.size() && (ev[i].t == Ev4::TRY || ev[i].t == Ev4::TRYFAIL));
        bool did = false;
        if (last) {
          const VV& nx = i < ev.size() && ev[i].t == Ev4::CB ? ev[i].s.xs : s->get_xs();
          const VV& nu = i < ev.size() && ev[i].t == Ev4::CB ? ev[i].s.us : s->get_us();
          if (vf::same(nx, e.xs_try) && vf::same(nu, e.us_try)) did = true;
          if (vf::same(nx, xs0) && vf::same(nu, us0)) {
            // a trial equal to the candidate says nothing
            if (did) {
              did = na < t.alphas.size() || acc;
              if (na == t.alphas.size() && border) ambiguous = true;
              border = true;
            }
          } else c.check(did, "candidate:" + who, VF_STR("iter " << it << " the candidate is neither the old one nor the last trial"));
        }
        if (!border) {
          c.check(acc == did, acc ? "acceptable-step-rejected:" + who : "unacceptable-step-accepted:" + who,
                  VF_STR("iter " << it << " step " << step << " dV " << dV << " dVexp " << ex << " d " << d.transpose() << " feasible " << feas0));
          c.count(acc ? "steps accepted" : "steps rejected");
          if (acc && ex < 0) c.count("ascent steps accepted");
        }
        accepted = did;
        if (did) {
          was = feas0;
          feas = (intro || fddp) ? (feas0 || step == 1.) : true;
          xs = e.xs_try; us = e.us_try; cost = e.cost_try;
          if (feas0 && !intro && std::abs(d[0]) >= t.thgrad)
            c.check(cost <= cost0 + 1e-12 * std::max(1., std::abs(cost0)), "cost-increased:" + who, VF_STR("iter " << it << " from " << cost0 << " to " << cost));
        }
      }
      if (ambiguous) break;  // a null step accepted or not: cannot be told apart
      if (!accepted) { c.check(na == t.alphas.size(), "search-stopped-early:" + who, VF_STR("iter " << it << " after " << na)); c.count("line searches without step"); }
      sg << na << accepted << feas;
      // what follows
      const bool cbnow = i < ev.size() && ev[i].t == Ev4::CB;
      if (!intro) {
        if (step > t.stepdec) preg = std::max(preg / t.dec, t.regmin);
        if (step <= t.stepinc) {
          preg = incr(preg);
          if (preg == t.regmax) { c.check(!cbnow && i == ev.size(), "regmax-continued:" + who); ended = true; expect_ret = false; c.count("ended at the largest regularisation"); ++it; break; }
        }
      }
      if (!c.check(cbnow, "callbacks-missing:" + who, VF_STR("iter " << it))) break;
      const Snap n = ev[i].s;
      for (size_t k2 = 0; k2 < cbs.size(); ++k2) {
        const int id = k2 < size_t(ncb) ? int(k2) : 0;
        if (!c.check(i < ev.size() && ev[i].t == Ev4::CB && ev[i].cb == id, "callback-order:" + who, VF_STR("iter " << it << " callback " << k2))) break;
        c.check(vf::same(ev[i].s.xs, n.xs) && ev[i].s.cost == n.cost, "callback-consistency:" + who);
        ++i;
      }
      c.count("callbacks", cbs.size());
      c.check(n.iter == it, "iteration-number:" + who, VF_STR(n.iter << " vs " << it));
      c.check(n.feas == feas, "feasibility-flag:" + who, VF_STR("iter " << it << " flag " << n.feas << " expected " << feas << " step " << step));
      c.check(n.step == step, "step-reported:" + who);
      c.check(near(n.preg, preg) && n.preg == n.dreg, "regularisation-updated:" + who, VF_STR("iter " << it << " preg " << n.preg << " expected " << preg << " step " << step));
      preg = n.preg;
      c.check(preg <= t.regmax && preg >= std::min(t.regmin, std::isnan(reg) ? t.regmin : reg), "regularisation-range:" + who);
      if (have_d) {
        c.check(near(n.dVexp, step * (n.d[0] + 0.5 * step * n.d[1])) || ev.empty(), "expected-reduction:" + who, VF_STR("iter " << it));
        const double st = std::abs(n.d[0] + 0.5 * n.d[1]);
        if (intro) {
          const double hnow = n.hfeas;
          c.check(near(n.stop, std::max(hnow, st)), "stopping-value:" + who, VF_STR("iter " << it << " stop " << n.stop << " expected " << std::max(hnow, st)));
        } else c.check(near(n.stop, st), "stopping-value:" + who, VF_STR("iter " << it << " stop " << n.stop << " expected " << st));
      }
      stop = n.stop;
      if (intro) {
        // merit acceptance with the penalty in force; dV, dPhi... are those of the last trial
        if (have_d) {
          const double fe = hf - hft;
          const double u = fe != 0 ? (n.dPhi - n.dV) / fe : -1;
          c.check(near(n.dfeas, fe) || std::abs(n.dfeas - fe) < 1e-10 * std::max(1., hf), "feasibility-reduction:" + who, VF_STR("iter " << it << " " << n.dfeas << " vs " << fe));
          const double ex = n.dVexp, pe = n.dPhiexp;
          if (std::abs(n.dPhi - n.dV) > 1e-6 && std::abs(fe) > 1e-6)
            c.check(vf::relerr(pe, ex + step * u * fe) < 1e-6, "expected-merit:" + who, VF_STR("iter " << it << " " << pe << " vs " << ex + step * u * fe));
          bool border = std::abs(pe) < 1e-12 || std::abs(n.dPhi - t.thacc * pe) < 1e-10 * std::max(1., std::abs(n.dPhi)) || std::abs(n.dV - t.thneg * ex) < 1e-10 * std::max(1., std::abs(n.dV));
          const bool acc = pe >= 0 ? (std::abs(n.d[0]) < t.thgrad || n.dPhi > t.thacc * pe) : n.dV > t.thneg * ex;
          const bool moved = !(vf::same(xs, xs0) && vf::same(us, us0));
          // only the last trial's figures remain visible; if it failed they belong to an earlier one
          if (!border && (ev[i - cbs.size() - 1].t == Ev4::TRY)) {
            if (moved) c.check(acc, "unacceptable-step-accepted:" + who, VF_STR("iter " << it << " step " << step << " dPhi " << n.dPhi << " dPhiexp " << pe << " dV " << n.dV << " dVexp " << ex));
            else if (!vf::same(ev[i - cbs.size() - 1].xs_try, xs0)) c.check(!acc, "acceptable-step-rejected:" + who, VF_STR("iter " << it << " step " << step << " dPhi " << n.dPhi << " dPhiexp " << pe << " dV " << n.dV << " dVexp " << ex));
            c.count(moved ? "merit steps accepted" : "merit steps rejected");
          }
        }
        const double dec0 = preg;
        if (step > t.stepdec && n.dV >= 0.) preg = std::max(preg / t.dec, t.regmin);
        (void)dec0;
        if (step <= t.stepinc || std::abs(n.d[1]) <= t.thfeas) {
          if (preg == t.regmax) { ended = true; expect_ret = false; c.count("ended at the largest regularisation"); ++it; break; }
          preg = incr(preg);
        }
        if (feas && stop < t.thstop) { ended = true; expect_ret = true; }
      } else if (was && stop < t.thstop) { ended = true; expect_ret = true; }
      ++it;
      c.count("iterations checked");
    }
    if (ambiguous) c.count("solves left at an ambiguous null step");
    else if (!c.failed()) {
      c.check(i == ev.size(), "continued-after-end:" + who, VF_STR("events left " << ev.size() - i));
      c.check(ended || it == maxit, "stopped-early:" + who, VF_STR("after " << it << " of " << maxit));
      c.check(ret == (ended && expect_ret), "verdict:" + who, VF_STR("returned " << ret << " stop " << s->get_stop() << " th " << t.thstop << " was " << was));
      if (ret) { c.check(s->get_stop() < t.thstop && s->get_is_feasible(), "converged-means-stop:" + who); c.count("convergences"); }
      c.check(vf::same(s->get_xs(), xs) && vf::same(s->get_us(), us), "final-candidate:" + who);
      if (in) { c.check(in->get_upsilon() >= ups - 1e-300, "penalty-decreased:" + who, VF_STR(in->get_upsilon() << " from " << ups)); }
    }
    c.sig(sg.str());
    if (c.index < 2) c.sample(sg.str());
  }
}

static void any(vf::Ctx& c, vf::Rng& r, bool nonconvex) {
  vf::Quiet q;
  const int kind = r.irange(0, 4);
  switch (kind) {
    case DDP: one<cr::SolverDDP>(c, r, kind, false, false, nonconvex); break;
    case FDDP: one<cr::SolverFDDP>(c, r, kind, false, true, nonconvex); break;
    case BOXDDP: one<cr::SolverBoxDDP>(c, r, kind, false, false, nonconvex); break;
    case BOXFDDP: one<cr::SolverBoxFDDP>(c, r, kind, false, true, nonconvex); break;
    default: one<cr::SolverIntro>(c, r, kind, true, true, nonconvex); break;
  }
}
VF_SCENARIO(traces, 4000, 100000) { any(c, r, false); }
VF_SCENARIO(nonconvex, 2500, 60000) { any(c, r, true); }

VF_SCENARIO(kkt, 600, 20000) {
  vf::Quiet q;
  Problem p = r.coin() ? lq_problem(r, 1, 5, 4, 3, true) : nl_problem(r, ProbOpt());
  SolP s = make(KKT, p.prob);
  if (r.coin(0.4)) s->set_th_stop(r.logu(1e-10, 1e-1));
  auto cb = std::make_shared<Capture>();
  s->setCallbacks({cb});
  Warm w = warm(r, p);
  const size_t maxit = r.irange(0, 15);
  const bool ret = s->solve(w.xs, w.us, maxit, w.feas);
  c.check(cb->snaps.size() <= maxit, "too-many-iterations:KKT");
  for (size_t i = 0; i < cb->snaps.size(); ++i) {
    c.check(cb->snaps[i].iter == i, "iteration-number:KKT");
    const double ex = cb->snaps[i].step * (cb->snaps[i].d[0] + 0.5 * cb->snaps[i].step * cb->snaps[i].d[1]);
    c.check(vf::relerr(cb->snaps[i].dVexp, ex) < 1e-9, "expected-reduction:KKT");
    const bool done = i > 0 && cb->snaps[i].stop < s->get_th_stop();
    if (i + 1 < cb->snaps.size()) c.check(!(done), "continued-after-end:KKT");
  }
  if (ret) c.check(s->get_stop() < s->get_th_stop(), "converged-means-stop:KKT");
  else c.check(cb->snaps.size() == maxit, "stopped-early:KKT");
  c.count("KKT solves");
}
VF_MAIN("C04")
